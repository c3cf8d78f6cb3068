------------------------------- MODULE Bytes -------------------------------
(* Byte strings. A byte string is a sequence of integers 0..255. Long ones   *)
(* are also represented by their canonical run-length encoding: a sequence   *)
(* of runs <<value, count>>, count > 0, neighbours having distinct values.   *)
(* Two byte strings are equal iff their canonical encodings are equal.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Chr(s, i) == SubSeq(s, i, i)
CodeOf == TLCEval([ch \in {Chr(Printable, i) : i \in 1..95} |-> (CHOOSE i \in 1..95 : Chr(Printable, i) = ch) + 31])
\* the bytes of an ASCII text
B(s) == [i \in 1..Len(s) |-> CodeOf[Chr(s, i)]]

CR == 13
LF == 10
SP == 32
HT == 9
CRLF == <<13, 10>>

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
HexUpper(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexLower(n) == IF n < 10 THEN 48 + n ELSE 87 + n
LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]
IsBlank(c) == c = SP \/ c = HT

RECURSIVE DecN(_)
DecN(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecN(n \div 10), 48 + (n % 10))
\* decimal text of an integer
Dec(n) == IF n < 0 THEN <<45>> \o DecN(-n) ELSE DecN(n)
\* value of a text of decimal digits (at most 9 of them)
Num(s) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, s)
IsNum(s) == Len(s) \in 1..9 /\ \A i \in 1..Len(s) : IsDigit(s[i])

Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
\* s contains t
HasSub(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
\* position of the first occurrence of t in s, 0 if there is none
Find(s, t) == IF HasSub(s, t)
              THEN CHOOSE i \in 1..(Len(s) - Len(t) + 1) :
                       /\ SubSeq(s, i, i + Len(t) - 1) = t
                       /\ \A j \in 1..(i - 1) : SubSeq(s, j, j + Len(t) - 1) # t
              ELSE 0
FindByte(s, c) == IF \E i \in 1..Len(s) : s[i] = c
                  THEN CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c
                  ELSE 0
FindLast(s, c) == IF \E i \in 1..Len(s) : s[i] = c
                  THEN CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in (i + 1)..Len(s) : s[j] # c
                  ELSE 0
\* without the blanks around it
Trim(s) == LET in == {i \in 1..Len(s) : ~IsBlank(s[i])}
           IN IF in = {} THEN <<>>
              ELSE SubSeq(s, CHOOSE i \in in : \A j \in in : i <= j, CHOOSE i \in in : \A j \in in : i >= j)
\* the pieces of s between the bytes c
Split(s, c) == LET r == FoldLeft(LAMBDA a, x : IF x = c THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                                                ELSE [a EXCEPT !.cur = Append(@, x)],
                                 [done |-> <<>>, cur |-> <<>>], s)
               IN Append(r.done, r.cur)
Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

(* Big and little endian numbers. 32 bit words do not fit TLC's integers:    *)
(* they are handled as byte strings.                                         *)
BE2(n) == <<n \div 256, n % 256>>
LE2(n) == <<n % 256, n \div 256>>
BE4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>

---------------------------------------------------------------------------
(* Run-length encoded byte strings                                           *)

RLen(r) == FoldLeft(LAMBDA a, x : a + x[2], 0, r)
RPush(r, run) == IF run[2] = 0 THEN r
                 ELSE IF r # <<>> /\ Last(r)[1] = run[1]
                      THEN [r EXCEPT ![Len(r)] = <<run[1], @[2] + run[2]>>]
                      ELSE Append(r, run)
RCat(a, b) == IF b = <<>> THEN a ELSE IF a = <<>> THEN b
              ELSE IF Last(a)[1] = b[1][1] THEN RPush(a, b[1]) \o Tail(b) ELSE a \o b
RConcat(rs) == FoldLeft(LAMBDA a, x : RCat(a, x), <<>>, rs)
\* encoding of a byte string
RECURSIVE RleOf(_)
RleOf(s) == IF Len(s) > 64
            THEN LET h == Len(s) \div 2 IN RCat(RleOf(SubSeq(s, 1, h)), RleOf(SubSeq(s, h + 1, Len(s))))
            ELSE FoldLeft(LAMBDA r, c : RPush(r, <<c, 1>>), <<>>, s)
\* <<k, m>>: the n first bytes (there are as many) are those of the k first runs and m of the next one
RECURSIVE RSplitFrom(_, _, _)
RSplitFrom(r, n, i) == IF i > Len(r) \/ n < r[i][2] THEN <<i - 1, n>> ELSE RSplitFrom(r, n - r[i][2], i + 1)
\* the n first bytes
RTake(r, n) == LET p == RSplitFrom(r, n, 1)
                   head == SubSeq(r, 1, p[1])
               IN IF p[2] = 0 \/ p[1] = Len(r) THEN head ELSE Append(head, <<r[p[1] + 1][1], p[2]>>)
\* all but the n first bytes
RDrop(r, n) == LET p == RSplitFrom(r, n, 1)
                   tail == SubSeq(r, p[1] + 1, Len(r))
               IN IF p[2] = 0 \/ tail = <<>> THEN tail ELSE [tail EXCEPT ![1] = <<@[1], @[2] - p[2]>>]
\* byte string of an encoding
RECURSIVE Expand(_)
Expand(r) == IF Len(r) > 32
             THEN LET h == Len(r) \div 2 IN Expand(SubSeq(r, 1, h)) \o Expand(SubSeq(r, h + 1, Len(r)))
             ELSE FoldLeft(LAMBDA a, x : a \o [i \in 1..x[2] |-> x[1]], <<>>, r)
ExpandHead(r, n) == Expand(RTake(r, n))
RIsPrefix(p, r) == RLen(p) <= RLen(r) /\ RTake(r, RLen(p)) = p
=============================================================================
