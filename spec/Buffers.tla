------------------------------ MODULE Buffers ------------------------------
(* Network buffers: a buffer designates n bytes of a source, from the at-th    *)
(* one, and may allow to modify them (rw). Sizes of elements are in bytes.     *)
EXTENDS Integers, Sequences
CONSTANT Slots
VARIABLE buf
NoBuffer == [st |-> "none", src |-> 0, at |-> 0, n |-> 0, rw |-> FALSE]
BufInit == buf = [k \in Slots |-> NoBuffer]
Least(x, y) == IF x < y THEN x ELSE y
Put(k, b) == buf' = [buf EXCEPT ![k] = b]
Set(k) == buf[k].st = "set"

\* from a source of count elements, the first limit ones if limit >= 0
Make(k, src, esize, count, limit, rw) ==
    Put(k, [st |-> "set", src |-> src, at |-> 0, n |-> esize * (IF limit < 0 THEN count ELSE Least(count, limit)), rw |-> rw])
\* from another one, at most limit bytes if limit >= 0, and perhaps for reading only
Copy(k, j, limit, rw) == /\ Set(k) /\ (rw => buf[k].rw)
                         /\ Put(j, [buf[k] EXCEPT !.n = IF limit < 0 THEN @ ELSE Least(@, limit), !.rw = rw])
\* skips n bytes
Advance(k, n) == /\ Set(k)
                 /\ LET m == Least(n, buf[k].n) IN Put(k, [buf[k] EXCEPT !.at = @ + m, !.n = @ - m])
\* what can be seen of a buffer: where it begins does not matter when it is empty
Is(b, at, n, rw) == b.n = n /\ b.rw = rw /\ (n = 0 \/ b.at = at)
============================================================================
