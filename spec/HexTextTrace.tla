---------------------------- MODULE HexTextTrace ----------------------------
(* Recorded dumps of the real code against HexText.                           *)
EXTENDS TraceBase, HexText
vars == <<tid, pos>>
Init == TraceInit
Dumped == E.o = "dump" /\ IsDump(E.t, Dump(E.d, E.at)) /\ E.kept
Next == Consume /\ Dumped /\ Report
Spec == Init /\ [][Next]_vars
=============================================================================
