----------------------------- MODULE BuffersMC -----------------------------
(* Short histories of buffers made from small sources, from one another, and  *)
(* consumed. Nothing beyond a source is ever designated, each byte is met once *)
(* by who consumes a whole buffer, and copies are independent.                *)
EXTENDS Buffers, TLC, Json, IOUtils
CONSTANTS MaxOps, Sizes, Counts, Steps
VARIABLES hist, total, met
vars == <<buf, hist, total, met>>
Init == BufInit /\ hist = <<>> /\ total = [k \in Slots |-> 0] /\ met = [k \in Slots |-> <<>>]
More == Len(hist) < MaxOps
Note(o) == hist' = Append(hist, o)
Bytes(b) == [i \in 1..b.n |-> b.at + i]
Next == /\ More
        /\ \/ \E k \in Slots, z \in Sizes, c \in Counts, l \in Counts \cup {-1, 9}, rw \in BOOLEAN :
                 /\ Make(k, k, z, c, l, rw) /\ Note(<<"make", k, z, c, l, rw>>)
                 /\ total' = [total EXCEPT ![k] = z * c] /\ met' = [met EXCEPT ![k] = <<>>]
           \/ \E k \in Slots, j \in Slots, l \in Steps \cup {-1}, rw \in BOOLEAN :
                 /\ k # j /\ Copy(k, j, l, rw) /\ Note(<<"copy", k, j, l, rw>>)
                 /\ total' = [total EXCEPT ![j] = total[k]] /\ met' = [met EXCEPT ![j] = met[k]]
           \/ \E k \in Slots, n \in Steps :
                 /\ Advance(k, n) /\ Note(<<"advance", k, n>>)
                 /\ met' = [met EXCEPT ![k] = @ \o SubSeq(Bytes(buf[k]), 1, Least(n, buf[k].n))] /\ UNCHANGED total
Spec == Init /\ [][Next]_vars
Inside == \A k \in Slots : buf[k].at >= 0 /\ buf[k].n >= 0 /\ buf[k].at + buf[k].n <= total[k]
Once == \A k \in Slots : Set(k) => met[k] \o Bytes(buf[k]) = [i \in 1..(buf[k].at + buf[k].n) |-> i]
View == <<buf, total, met, Len(hist)>>
EmitFinal == (IOEnv.MODE = "gen" /\ Len(hist) = MaxOps) => PrintT(ToJson(hist))
============================================================================
