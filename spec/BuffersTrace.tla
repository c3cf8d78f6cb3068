---------------------------- MODULE BuffersTrace ----------------------------
(* Recorded uses of the real network buffers against Buffers. w: the buffer    *)
(* which results from an operation, read through its public interface.        *)
EXTENDS TraceBase
VARIABLES buf
vars == <<tid, pos, buf>>
B == INSTANCE Buffers WITH Slots <- 1..9
Init == TraceInit /\ B!BufInit
\* what is seen of the slot j
Seen(j) == E.w.src = buf'[j].src /\ B!Is(buf'[j], E.w.at, E.w.n, E.w.rw)
Make == E.o = "make" /\ B!Make(E.k, E.src, E.z, E.c, E.l, E.rw) /\ Seen(E.k)
Copy == E.o = "copy" /\ B!Copy(E.k, E.j, E.l, E.rw) /\ Seen(E.j)
Advance == E.o = "advance" /\ B!Advance(E.k, E.n) /\ Seen(E.k)
Next == Consume /\ (Make \/ Copy \/ Advance) /\ Report
Spec == Init /\ [][Next]_vars
=============================================================================
