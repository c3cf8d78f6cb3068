--------------------------- MODULE WebSocketTrace ---------------------------
(* Recorded runs of the real WebSocket against WebSocket. ASPECT:            *)
(*  recv : the messages delivered are those received                         *)
(*  send : the bytes which leave are the frames of the messages sent         *)
(*  life : the end is notified, once, and nothing follows                    *)
EXTENDS TraceBase

Ids == 1..9
VARIABLES ws, pend
vars == <<tid, pos, ws, pend>>

FMT == [c16 |-> 126, c64 |-> 127, lim16 |-> 65536, n16 |-> 2, n64 |-> 8, nkey |-> 4]
S == INSTANCE WebSocket WITH Socks <- Ids, F <- FMT

Init == TraceInit /\ S!WInit /\ pend = [c \in Ids |-> FALSE]

OnlyEnds(due) == SelectSeq(due, LAMBDA m : m.t = S!CloseOp)
\* messages matter in recv only
Read == /\ E.o = "read"
        /\ IF Aspect = "recv" THEN S!Read(E.c, E.d)
           ELSE LET x == S!Feed(ws[E.c].rx, E.d)
                IN S!Upd(E.c, [ws[E.c] EXCEPT !.rx = [x EXCEPT !.out = <<>>], !.due = IF S!Alive(E.c) THEN @ \o OnlyEnds(x.out) ELSE <<>>])
        /\ UNCHANGED pend
Msg == /\ E.o = "msg"
       /\ IF Aspect = "recv" THEN S!Message(E.c, E.t, E.d) ELSE S!Alive(E.c) /\ UNCHANGED ws
       /\ UNCHANGED pend
Out == /\ E.o = "out"
       /\ IF Aspect = "send" THEN S!Out(E.c, E.d) ELSE S!Alive(E.c) /\ UNCHANGED ws
       /\ UNCHANGED pend
Send == E.o = "send" /\ (IF Aspect = "send" THEN S!Send(E.c, E.t, E.d) ELSE UNCHANGED ws) /\ UNCHANGED pend
Open == E.o = "open" /\ S!Open(E.c) /\ UNCHANGED pend
Fin == E.o = "fin" /\ S!PeerEnds(E.c) /\ UNCHANGED pend
Reset == E.o = "reset" /\ S!PeerBreaks(E.c) /\ UNCHANGED pend
ReadEnd == E.o = "readend" /\ S!ReadEnd(E.c) /\ UNCHANGED pend
Told == E.o = "told" /\ S!Tell(E.c) /\ UNCHANGED pend
Released == E.o = "released" /\ S!Released(E.c) /\ UNCHANGED pend
Stop == E.o = "stop" /\ (IF ws[E.c].app = "open" THEN S!Stop(E.c) ELSE UNCHANGED ws) /\ UNCHANGED pend
Destroy == E.o = "destroy" /\ S!Destroy(E.c) /\ UNCHANGED pend
Pend == E.o = "pend" /\ pend' = [pend EXCEPT ![E.c] = E.n] /\ UNCHANGED ws
Quiescent == /\ E.o = "q"
             /\ \A c \in Ids : S!Settled(c, IF Aspect = "send" THEN pend[c] ELSE ws[c].tx # <<>>)
             /\ UNCHANGED <<ws, pend>>
Growth == E.o = "growth" /\ E.bytes <= 16 * E.n + 256 /\ UNCHANGED <<ws, pend>>

Next == Consume /\ (Open \/ Read \/ Msg \/ Out \/ Send \/ Fin \/ Reset \/ ReadEnd \/ Told \/ Released \/ Stop \/ Destroy \/ Pend \/ Quiescent \/ Growth) /\ Report
Spec == Init /\ [][Next]_vars
=============================================================================
