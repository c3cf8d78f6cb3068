----------------------------- MODULE MessagesMC -----------------------------
(* The coding of parameters: what is encoded decodes to itself, and nothing   *)
(* else is ever read from a truncated or differently typed text. The values   *)
(* of two neighbouring parameters are enumerated, and printed with the types  *)
(* they are read with.                                                        *)
EXTENDS Messages, Json, IOUtils

bo(x) == [k |-> "b", v |-> x]
nu(n) == [k |-> "n", n |-> n]
st(r) == [k |-> "s", r |-> r]
tu(l) == [k |-> "t", l |-> l]
One == <<0, 0, 0, 0, 0, 0, 240, 63>>
Numbers == {Zero, One, <<0, 0, 0, 0, 0, 0, 4, 192>>, <<0, 0, 0, 0, 0, 0, 112, 64>>, <<0, 0, 192, 255, 255, 255, 223, 65>>, <<0, 0, 0, 0, 0, 0, 224, 193>>, <<1, 2, 3, 4, 5, 6, 7, 120>>, <<0, 0, 0, 0, 0, 0, 240, 127>>}
Texts == {<<>>, <<<<1, 1>>>>, <<<<3, 9>>>>, <<<<120, 255>>>>, <<<<120, 256>>>>}
Base == {bo(0), bo(1)} \cup {nu(n) : n \in Numbers} \cup {st(r) : r \in Texts}
Few == {bo(0), nu(One), st(<<<<3, 9>>>>)}
Tuples == {tu(<<>>), tu(<<tu(<<>>)>>)} \cup {tu(<<x>>) : x \in Few} \cup {tu(<<bo(x), bo(y), bo(z)>>) : x, y, z \in {0, 1}}
          \cup {tu(<<st(r), tu(<<bo(x), nu(n)>>)>>) : r \in {<<>>, <<<<18, 2>>>>}, x \in {0, 1}, n \in {One}} \cup {tu(<<tu(<<tu(<<nu(One)>>)>>)>>)}
Values == Base \cup Tuples
TypeNames == {"b", "d", "s", "i32", "u8", "u16", "i64", "i8", "u32", "i16"}
RECURSIVE TypeOf(_)
TypeOf(v) == CASE v.k = "b" -> [t |-> "b"] [] v.k = "n" -> [t |-> "d"] [] v.k = "s" -> [t |-> "s"]
               [] OTHER -> [t |-> "t", l |-> [i \in 1..Len(v.l) |-> TypeOf(v.l[i])]]
Types(v) == {TypeOf(v)} \cup {[t |-> n] : n \in TypeNames}
Shapes == {TypeOf(v) : v \in Tuples}

VARIABLES vals, types
vars == <<vals, types>>
Init == \E a \in Values :
           \/ \E b \in Values : vals = <<a, b>> /\ types = <<TypeOf(a), TypeOf(b)>>
           \/ vals = <<a, bo(1)>> /\ \E t \in Types(a) \cup Shapes : types = <<t, [t |-> "b"]>>
           \/ vals = <<a>> /\ types = <<TypeOf(a), TypeOf(a)>>
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Natural == Len(types) = Len(vals) /\ \A i \in 1..Len(vals) : types[i] = TypeOf(vals[i])
Wire == EncodeList(vals)
RoundTrip == LET x == DecodeAll(Wire) IN x.ok /\ SameList(x.l, vals)
ReadBack == Natural => LET x == Read(Wire, types) IN x.ok /\ SameParams(x.l, vals) /\ x.rest = <<>>
TooShort == Natural /\ RLen(Wire) < 60 => \A n \in 0..(RLen(Wire) - 1) : ~Read(RTake(Wire, n), types).ok
TooMany == Len(types) > Len(vals) => ~Read(Wire, types).ok
\* booleans, texts and tuples are never taken for one another, and what is read is what was sent
NoConfusion == LET x == Read(Wire, types)
               IN x.ok => \A i \in 1..Len(types) : /\ x.l[i].k = vals[i].k
                                                   /\ (vals[i].k = "n" /\ types[i].t # "d" => SameNumber(x.l[i].n, Trunc(vals[i].n)))
                                                   /\ (vals[i].k # "n" => Same(x.l[i], vals[i]))
CallReads == LET m == CallMessage(RleOf(B("name")), vals) x == ReadCall(m)
             IN x.ok /\ x.name = RleOf(B("name")) /\ x.args = Wire /\ ReadSent(m).what = "call" /\ SameList(ReadSent(m).args, vals)

Shown == IOEnv.MODE # "gen" \/ PrintT(ToJson([vals |-> vals, types |-> types]))
=============================================================================
