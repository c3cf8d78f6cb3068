---------------------------- MODULE LoggingTrace ----------------------------
(* Recorded uses of the real logging facility against Logging.               *)
EXTENDS TraceBase, HexText
VARIABLES on, up, due
vars == <<tid, pos, on, up, due>>
L == INSTANCE Logging WITH Sinks <- 0..20
SetOf(s) == {s[i] : i \in 1..Len(s)}

\* the text of a message: pieces of its format and arguments
Piece(p) == CASE p.k = "t" -> p.t [] p.k = "i" -> Dec(p.n) [] p.k = "b" -> IF p.v THEN B("true") ELSE B("false")
Text(ps) == Concat([i \in 1..Len(ps) |-> Piece(ps[i])])
Init == TraceInit /\ L!LogInit
Deal == CASE E.o = "level" -> L!SetLevel(E.l)
          [] E.o = "set" -> L!Set(E.l, E.b)
          [] E.o = "is" -> L!Quiet /\ E.b = (E.l \in on) /\ UNCHANGED <<on, up, due>>
          [] E.o = "add" -> L!Add(SetOf(E.k))
          [] E.o = "remove" -> L!Leave(SetOf(E.k))
          [] E.o = "log" -> L!Log(E.l, <<[l |-> E.l, text |-> Text(E.p), file |-> E.file, at |-> E.at]>>)
          [] E.o = "hex" -> L!Log(3, <<[l |-> 3, text |-> E.t], [raw |-> Dump(E.d, 0)]>>)
          [] E.o = "got" -> L!Receive(E.k, E.t)
          [] E.o = "q" -> L!Quiet /\ UNCHANGED <<on, up, due>>
          [] OTHER -> FALSE
Next == Consume /\ Deal /\ Report
Spec == Init /\ [][Next]_vars
=============================================================================
