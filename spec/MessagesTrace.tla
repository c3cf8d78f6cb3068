---------------------------- MODULE MessagesTrace ----------------------------
(* Recorded encodings and decodings of the real code against Messages.        *)
EXTENDS TraceBase, Messages
vars == <<tid, pos>>

Encoding == /\ E.o = "enc"
       /\ RLen(E.d) >= 8
       /\ Announced(ExpandHead(E.d, 8)) = RLen(E.d) - 8
       /\ LET x == DecodeAll(RDrop(E.d, 8)) IN x.ok /\ SameList(x.l, E.vals)
Refused == /\ E.o = "refused"
           /\ NodesOf(E.vals) > 255 \/ \E i \in 1..Len(E.vals) : ~TextsFit(E.vals[i])
Decoding == /\ E.o = "dec"
       /\ LET x == Read(E.d, E.types)
          IN \/ x.open
             \/ x.ok /\ E.ok /\ SameParams(x.l, E.vals) /\ RLen(x.rest) = E.left
             \/ ~x.ok /\ ~E.ok
Cast == /\ E.o = "cast"
        /\ LET n == RLen(E.d)
               h == ExpandHead(E.d, 8)
               whole == CASE E.k = "hs" -> n >= 2
                          [] E.k = "text" -> n >= 4 /\ n - 4 >= 256 * h[3] + h[4]
                          [] OTHER -> n >= 8 /\ Announced(h) <= n - 8
           IN /\ E.ok = whole
              /\ whole => CASE E.k = "hs" -> E.endian = h[2]
                            [] E.k = "text" -> E.size = 256 * h[3] + h[4]
                            [] OTHER -> /\ E.size = Announced(h)
                                        /\ LET x == ReadCall(E.d)
                                           IN \/ ~x.ok /\ ~E.named
                                              \/ x.ok /\ x.open
                                              \/ x.ok /\ ~x.open /\ E.named /\ E.name = x.name /\ E.rest = x.args
Init == TraceInit
Next == Consume /\ (Encoding \/ Refused \/ Decoding \/ Cast) /\ Report
Spec == Init /\ [][Next]_vars
==============================================================================
