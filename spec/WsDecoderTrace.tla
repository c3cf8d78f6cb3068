--------------------------- MODULE WsDecoderTrace ---------------------------
(* Recorded runs of the decoder of frames, used alone, against WsFrame: each *)
(* piece of the stream completes exactly the frames which end in it.         *)
EXTENDS TraceBase
FMT == [c16 |-> 126, c64 |-> 127, lim16 |-> 65536, n16 |-> 2, n64 |-> 8, nkey |-> 4]
W == INSTANCE WsFrame WITH F <- FMT
VARIABLES dec, due
vars == <<tid, pos, dec, due>>
Init == TraceInit /\ dec = W!Framer /\ due = <<>>
Piece == /\ E.o = "piece" /\ due = <<>>
         /\ LET x == W!Frames(dec, E.d) IN dec' = [x EXCEPT !.out = <<>>] /\ due' = x.out
Frame == /\ E.o = "frame" /\ due # <<>>
         /\ (due[1] = [op |-> E.op, fin |-> E.fin, d |-> E.d]) = TRUE
         /\ due' = Tail(due) /\ UNCHANGED dec
End == E.o = "end" /\ due = <<>> /\ UNCHANGED <<dec, due>>
Next == Consume /\ (Piece \/ Frame \/ End) /\ Report
Spec == Init /\ [][Next]_vars
=============================================================================
