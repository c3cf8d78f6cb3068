------------------------------- MODULE HexText -------------------------------
(* Hexadecimal dumps: lines of 16 bytes, each with the address of the first    *)
(* one, the bytes in two groups of 8 and their characters.                     *)
EXTENDS Bytes

RECURSIVE Hex(_, _)
\* at least w digits
Hex(n, w) == IF n = 0 /\ w <= 0 THEN <<>> ELSE Append(Hex(n \div 16, w - 1), HexLower(n % 16))
\* the character of a byte; those over 126 are not specified (0)
CharOf(c) == IF c < 32 THEN 46 ELSE IF c > 126 THEN 0 ELSE c
DumpLine(d, at, base) == \* d: the bytes which remain
    LET n == IF Len(d) < 16 THEN Len(d) ELSE 16
        cell(i) == (IF i \in {1, 9} THEN <<32>> ELSE <<>>) \o (IF i <= n THEN <<32>> \o Hex(d[i], 2) ELSE <<32, 32, 32>>)
    IN Hex(base + at, 8) \o Concat([i \in 1..16 |-> cell(i)]) \o <<32>> \o [i \in 1..n |-> CharOf(d[i])]
RECURSIVE DumpFrom(_, _, _)
DumpFrom(d, at, base) == IF d = <<>> THEN <<>>
                         ELSE DumpLine(d, at, base) \o (IF Len(d) > 16 THEN <<10>> ELSE <<>>) \o DumpFrom(Drop(d, 16), at + 16, base)
\* the dump of d whose first byte has an address
Dump(d, base) == DumpFrom(d, 0, base)
\* s is the dump p, but for the characters which are not specified
IsDump(s, p) == Len(s) = Len(p) /\ \A i \in 1..Len(p) : p[i] = 0 \/ s[i] = p[i]

\* reading of a dump: the bytes, the addresses and the characters found in its lines
HexNum(s) == FoldLeft(LAMBDA a, c : a * 16 + HexVal(c), 0, s)
LineBytes(l) == LET cells == [i \in 1..16 |-> SubSeq(l, 9 + 3 * i + (IF i > 8 THEN 1 ELSE 0) - 1, 9 + 3 * i + (IF i > 8 THEN 1 ELSE 0))]
                    full == SelectSeq(cells, LAMBDA c : c # <<32, 32>>)
                IN [i \in 1..Len(full) |-> HexNum(full[i])]
Lines(p) == IF p = <<>> THEN <<>> ELSE Split(p, 10)
BytesOf(p) == Concat([i \in 1..Len(Lines(p)) |-> LineBytes(Lines(p)[i])])
AddressOf(l) == HexNum(SubSeq(l, 1, 8))
=============================================================================
