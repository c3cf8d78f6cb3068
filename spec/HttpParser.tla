---------------------------- MODULE HttpParser ----------------------------
(* HTTP/1.x request heads: the grammar, and an incremental recogniser.      *)
EXTENDS Bytes

Tspecials == {40, 41, 60, 62, 64, 44, 59, 58, 92, 34, 47, 91, 93, 63, 61, 123, 125, 32, 9}
IsCtl(c) == c <= 31 \/ c = 127
\* characters of tokens: method and field names
TokenChar == [c \in 0..255 |-> c < 128 /\ ~IsCtl(c) /\ c \notin Tspecials]
IsToken(s) == s # <<>> /\ \A i \in 1..Len(s) : TokenChar[s[i]]

---------------------------------------------------------------------------
(* The grammar, stated on the whole text of a head                           *)

\* lines of a text which ends with CRLF
RECURSIVE LinesOf(_)
LinesOf(s) == LET i == Find(s, CRLF)
              IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o LinesOf(Drop(s, i + 1))

IsVersion(v) == /\ HasPrefix(v, B("HTTP/"))
                /\ LET p == Split(Drop(v, 5), 46) IN Len(p) = 2 /\ IsNum(p[1]) /\ IsNum(p[2])
IsRequestLine(l) == LET p == Split(l, SP)
                    IN /\ Len(p) = 3 /\ IsToken(p[1])
                       /\ p[2] # <<>> /\ \A i \in 1..Len(p[2]) : ~IsCtl(p[2][i])
                       /\ IsVersion(p[3])
IsFolded(l) == l # <<>> /\ IsBlank(l[1])
ValidText(v) == \A i \in 1..Len(v) : ~IsCtl(v[i]) \/ v[i] = HT
IsFieldLine(l) == LET i == FindByte(l, 58) IN i > 1 /\ IsToken(SubSeq(l, 1, i - 1)) /\ ValidText(Drop(l, i))
\* the fields of a list of lines, a folded line continuing the value of the previous one
FieldsOf(ls) ==
    FoldLeft(LAMBDA fs, l :
                IF IsFolded(l)
                THEN LET v == Trim(l) old == fs[Len(fs)][2]
                     IN [fs EXCEPT ![Len(fs)][2] = IF v = <<>> THEN old ELSE IF old = <<>> THEN v ELSE old \o <<SP>> \o v]
                ELSE LET i == FindByte(l, 58) IN Append(fs, <<SubSeq(l, 1, i - 1), Trim(Drop(l, i))>>),
             <<>>, ls)

WellFormed(s) ==
    LET ls == LinesOf(s) n == Len(ls)
    IN /\ n >= 3 /\ ls[n] = <<>> /\ ls[n - 1] = <<>>   \* the text ends with an empty line...
       /\ \A i \in 2..(n - 2) : ls[i] # <<>>            \* ... and contains no other one
       /\ IsRequestLine(ls[1])
       /\ \A i \in 2..(n - 2) : IF IsFolded(ls[i]) THEN i > 2 /\ ValidText(ls[i]) ELSE IsFieldLine(ls[i])
\* what a well formed head says
Meaning(s) ==
    LET ls == LinesOf(s) p == Split(ls[1], SP) v == Split(Drop(p[3], 5), 46)
    IN [method |-> p[1], target |-> p[2], major |-> Num(v[1]), minor |-> Num(v[2]),
        fields |-> FieldsOf(SubSeq(ls, 2, Len(ls) - 2))]

---------------------------------------------------------------------------
(* The recogniser: one transition per byte. "done" and "bad" are final.      *)
(* end counts how much of CR LF CR LF the last bytes form.                   *)

Start == [st |-> "m0", m |-> <<>>, t |-> <<>>, a |-> 0, b |-> 0, fs |-> <<>>, end |-> 0]

Bad(p) == [p EXCEPT !.st = "bad"]
Goto(p, c, ok, next) == IF ok THEN [p EXCEPT !.st = next] ELSE Bad(p)
Value(p, v) == [p.fs EXCEPT ![Len(p.fs)][2] = v]
CurValue(p) == p.fs[Len(p.fs)][2]
EndOf(e, c) == IF c = CR THEN (IF e = 2 THEN 3 ELSE 1) ELSE IF c = LF /\ e \in {1, 3} THEN e + 1 ELSE 0

Step0(p, c) ==
    CASE p.st \in {"done", "bad"} -> p
      [] p.st = "m0" -> IF TokenChar[c] THEN [p EXCEPT !.st = "m", !.m = <<c>>] ELSE Bad(p)
      [] p.st = "m" -> IF c = SP THEN [p EXCEPT !.st = "t0"] ELSE IF TokenChar[c] THEN [p EXCEPT !.m = Append(@, c)] ELSE Bad(p)
      [] p.st = "t0" -> IF IsCtl(c) \/ c = SP THEN Bad(p) ELSE [p EXCEPT !.st = "t", !.t = <<c>>]
      [] p.st = "t" -> IF c = SP THEN [p EXCEPT !.st = "H"] ELSE IF IsCtl(c) THEN Bad(p) ELSE [p EXCEPT !.t = Append(@, c)]
      [] p.st = "H" -> Goto(p, c, c = 72, "T1")
      [] p.st = "T1" -> Goto(p, c, c = 84, "T2")
      [] p.st = "T2" -> Goto(p, c, c = 84, "P")
      [] p.st = "P" -> Goto(p, c, c = 80, "/")
      [] p.st = "/" -> Goto(p, c, c = 47, "a0")
      [] p.st = "a0" -> IF IsDigit(c) THEN [p EXCEPT !.st = "a", !.a = c - 48] ELSE Bad(p)
      [] p.st = "a" -> IF c = 46 THEN [p EXCEPT !.st = "b0"] ELSE IF IsDigit(c) THEN [p EXCEPT !.a = @ * 10 + c - 48] ELSE Bad(p)
      [] p.st = "b0" -> IF IsDigit(c) THEN [p EXCEPT !.st = "b", !.b = c - 48] ELSE Bad(p)
      [] p.st = "b" -> IF c = CR THEN [p EXCEPT !.st = "nl1"] ELSE IF IsDigit(c) THEN [p EXCEPT !.b = @ * 10 + c - 48] ELSE Bad(p)
      [] p.st \in {"nl1", "nl2"} -> Goto(p, c, c = LF, "line")
      [] p.st = "line" -> IF c = CR THEN [p EXCEPT !.st = "nl3"]
                          ELSE IF IsBlank(c) THEN (IF p.fs = <<>> THEN Bad(p) ELSE [p EXCEPT !.st = "fold"])
                          ELSE IF TokenChar[c] THEN [p EXCEPT !.st = "name", !.fs = Append(@, <<<<c>>, <<>>>>)]
                          ELSE Bad(p)
      [] p.st = "fold" -> IF c = CR THEN [p EXCEPT !.st = "nl2"]
                          ELSE IF IsBlank(c) THEN p
                          ELSE IF IsCtl(c) THEN Bad(p)
                          ELSE [p EXCEPT !.st = "val", !.fs = Value(p, IF CurValue(p) = <<>> THEN <<c>> ELSE CurValue(p) \o <<SP, c>>)]
      [] p.st = "name" -> IF c = 58 THEN [p EXCEPT !.st = "v0"]
                          ELSE IF TokenChar[c] THEN [p EXCEPT !.fs[Len(p.fs)][1] = Append(@, c)]
                          ELSE Bad(p)
      [] p.st = "v0" -> IF c = CR THEN [p EXCEPT !.st = "nl2"]
                        ELSE IF IsBlank(c) THEN p
                        ELSE IF IsCtl(c) THEN Bad(p)
                        ELSE [p EXCEPT !.st = "val", !.fs = Value(p, <<c>>)]
      [] p.st = "val" -> IF c = CR THEN [p EXCEPT !.st = "nl2", !.fs = Value(p, Trim(CurValue(p)))]
                         ELSE IF IsCtl(c) /\ c # HT THEN Bad(p)
                         ELSE [p EXCEPT !.fs = Value(p, Append(CurValue(p), c))]
      [] p.st = "nl3" -> Goto(p, c, c = LF, "done")
Step(p, c) == IF p.st = "done" THEN p ELSE [Step0(p, c) EXCEPT !.end = IF p.end = 4 THEN 4 ELSE EndOf(p.end, c)]

Run(p, s) == FoldLeft(Step, p, s)
Verdict(p) == IF p.st \in {"done", "bad"} THEN p.st ELSE "more"
Result(p) == [method |-> p.m, target |-> p.t, major |-> p.a, minor |-> p.b, fields |-> p.fs]

---------------------------------------------------------------------------
(* Looking fields up                                                         *)
SameName(n1, n2) == Lower(n1) = Lower(n2)
ValuesOf(fs, name) == LET sel == SelectSeq(fs, LAMBDA f : SameName(f[1], name)) IN [i \in 1..Len(sel) |-> sel[i][2]]
FieldContains(fs, name, text) == \E i \in 1..Len(fs) : SameName(fs[i][1], name) /\ HasSub(Lower(fs[i][2]), Lower(text))
=============================================================================
