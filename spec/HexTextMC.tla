----------------------------- MODULE HexTextMC -----------------------------
(* Dumps of all the small lengths: the data can be read back from the dump.  *)
EXTENDS HexText, TLC, Json, IOUtils
CONSTANT MaxLen
VARIABLES d, base, p
vars == <<d, base, p>>
Init == /\ d \in {<<v>> : v \in {0, 10, 31, 32, 65, 126, 127, 200}} /\ base \in {0, 1, 16, 255, 65535, 1000000} /\ p = <<>>
Known(x) == [i \in 1..Len(x) |-> IF x[i] = 0 THEN 63 ELSE x[i]]
Next == /\ Len(d) < MaxLen
        /\ d' = IF p = <<>> THEN d ELSE Append(d, (Last(d) + 7) % 256)
        /\ p' = Known(Dump(d', base)) /\ UNCHANGED base
Spec == Init /\ [][Next]_vars
ReadBack == p # <<>> => BytesOf(p) = d
LineCount == p # <<>> => Len(Lines(p)) = (Len(d) + 15) \div 16
Addresses == LET l == Lines(p) IN \A i \in 1..Len(l) : AddressOf(l[i]) = base + 16 * (i - 1)
Shape == LET l == Lines(p) IN \A i \in 1..Len(l) : Len(l[i]) = 59 + (IF 16 * i <= Len(d) THEN 16 ELSE Len(d) - 16 * (i - 1))
Empty == Dump(<<>>, base) = <<>>
=============================================================================
