------------------------------ MODULE Messages ------------------------------
(* The messages exchanged by WebFront and its browser clients, and the values *)
(* they carry. Byte strings are run-length encoded.                           *)
EXTENDS Bytes, TLC

Handshake == 0
Ack == 1
TextCommand == 2
CallFunction == 3
FunctionReturn == 4
DebugLog == 0
InjectScript == 1

---------------------------------------------------------------------------
(* Numbers: 8 bytes, little endian IEEE 754 *)
Pow2 == [i \in 0..8 |-> 2^i]
Exponent(n) == (n[8] % 128) * 16 + (n[7] \div 16) - 1023
Negative(n) == n[8] >= 128
IsSpecialNumber(n) == Exponent(n) = 1024                    \* infinities and NaN
\* bit i (0..51) of the mantissa, 51 being the heaviest
MantissaBit(n, i) == (n[(i \div 8) + 1] \div Pow2[i % 8]) % 2
MantissaZeroFrom(n, i) == \A j \in i..51 : MantissaBit(n, j) = 0
Zero == <<0, 0, 0, 0, 0, 0, 0, 0>>
IsZero(n) == SubSeq(n, 1, 7) = SubSeq(Zero, 1, 7) /\ n[8] \in {0, 128}
\* rounded towards zero
Trunc(n) ==
    LET e == Exponent(n)
    IN IF e < 0 THEN Zero
       ELSE IF e >= 52 THEN n
       ELSE LET drop == 52 - e   \* lightest bits of the mantissa
            IN [i \in 1..8 |-> IF 8 * i <= drop THEN 0
                               ELSE IF 8 * (i - 1) >= drop THEN n[i]
                               ELSE n[i] - (n[i] % Pow2[drop - 8 * (i - 1)])]
\* the truncated number is one of an integral type of d value bits, signed or not
Fits(n, d, signed) ==
    /\ ~IsSpecialNumber(n)
    /\ LET e == Exponent(n)
       IN IF e < 0 THEN TRUE
          ELSE IF ~Negative(n) THEN e < d
          ELSE signed /\ (e < d \/ (e = d /\ (\A j \in 0..51 : j >= 52 - e => MantissaBit(n, j) = 0)))
Digits == [i8 |-> 7, u8 |-> 8, i16 |-> 15, u16 |-> 16, i32 |-> 31, u32 |-> 32, i64 |-> 63]
Signed == [i8 |-> TRUE, u8 |-> FALSE, i16 |-> TRUE, u16 |-> FALSE, i32 |-> TRUE, u32 |-> FALSE, i64 |-> TRUE]
SameNumber(a, b) == a = b \/ (IsZero(a) /\ IsZero(b))

---------------------------------------------------------------------------
(* Values: [k: "b", v: 0 or 1], [k: "n", n: bytes], [k: "s", r: text], [k: "e", r: text of an exception], [k: "t", l: values], [k: "u"] *)
RECURSIVE Same(_, _)
Same(a, b) == /\ a.k = b.k
              /\ CASE a.k = "b" -> a.v = b.v
                   [] a.k = "n" -> a.n = b.n
                   [] a.k \in {"s", "e"} -> a.r = b.r
                   [] a.k = "t" -> Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) : Same(a.l[i], b.l[i])
                   [] OTHER -> TRUE
SameList(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(a[i], b[i])

RECURSIVE Nodes(_)
Nodes(v) == IF v.k = "t" THEN FoldLeft(LAMBDA a, x : a + Nodes(x), 1, v.l) ELSE 1
NodesOf(l) == FoldLeft(LAMBDA a, x : a + Nodes(x), 0, l)
RECURSIVE TextsFit(_)
TextsFit(v) == IF v.k = "t" THEN \A i \in 1..Len(v.l) : TextsFit(v.l[i]) ELSE v.k = "s" => RLen(v.r) <= 65535

Rle(s) == RleOf(s)
RECURSIVE Encode(_)
Encode(v) ==
    CASE v.k = "b" -> Rle(<<IF v.v = 1 THEN 1 ELSE 2>>)
      [] v.k = "n" -> Rle(<<3>> \o v.n)
      [] v.k = "s" -> RCat(Rle(IF RLen(v.r) < 256 THEN <<4, RLen(v.r)>> ELSE <<5>> \o LE2(RLen(v.r))), v.r)
      [] v.k = "e" -> RCat(Rle(<<6>> \o LE2(RLen(v.r))), v.r)
      [] v.k = "t" -> FoldLeft(LAMBDA a, x : RCat(a, Encode(x)), Rle(<<18, Len(v.l)>>), v.l)
      [] OTHER -> Rle(<<0>>)
EncodeList(l) == FoldLeft(LAMBDA a, x : RCat(a, Encode(x)), <<>>, l)

Bad == [ok |-> FALSE]
RECURSIVE Decode1(_)
RECURSIVE DecodeN(_, _)
\* the first value of d and what follows it
Decode1(d) ==
    IF d = <<>> THEN Bad
    ELSE LET n == RLen(d) code == d[1][1]
             text(k, head, size) == IF n < head + size THEN Bad ELSE [ok |-> TRUE, v |-> [k |-> k, r |-> RTake(RDrop(d, head), size)], rest |-> RDrop(d, head + size)]
         IN CASE code = 0 -> [ok |-> TRUE, v |-> [k |-> "u"], rest |-> RDrop(d, 1)]
              [] code \in {1, 2} -> [ok |-> TRUE, v |-> [k |-> "b", v |-> 2 - code], rest |-> RDrop(d, 1)]
              [] code = 3 -> IF n < 9 THEN Bad ELSE [ok |-> TRUE, v |-> [k |-> "n", n |-> SubSeq(ExpandHead(d, 9), 2, 9)], rest |-> RDrop(d, 9)]
              [] code = 4 -> IF n < 2 THEN Bad ELSE text("s", 2, ExpandHead(d, 2)[2])
              [] code = 5 -> IF n < 3 THEN Bad ELSE text("s", 3, ExpandHead(d, 3)[2] + 256 * ExpandHead(d, 3)[3])
              [] code = 6 -> IF n < 3 THEN Bad ELSE text("e", 3, ExpandHead(d, 3)[2] + 256 * ExpandHead(d, 3)[3])
              [] code = 18 -> IF n < 2 THEN Bad
                              ELSE LET x == DecodeN(RDrop(d, 2), ExpandHead(d, 2)[2])
                                   IN IF x.ok THEN [ok |-> TRUE, v |-> [k |-> "t", l |-> x.l], rest |-> x.rest] ELSE Bad
              [] OTHER -> Bad
DecodeN(d, n) == FoldLeft(LAMBDA a, i : IF ~a.ok THEN a
                                        ELSE LET x == Decode1(a.rest)
                                             IN IF x.ok THEN [ok |-> TRUE, l |-> Append(a.l, x.v), rest |-> x.rest] ELSE Bad,
                          [ok |-> TRUE, l |-> <<>>, rest |-> d], [i \in 1..n |-> i])
\* all the values of d, which has nothing else
RECURSIVE DecodeFrom(_, _)
DecodeFrom(d, l) == IF d = <<>> THEN [ok |-> TRUE, l |-> l]
                    ELSE LET x == Decode1(d) IN IF ~x.ok THEN Bad ELSE DecodeFrom(x.rest, Append(l, x.v))
DecodeAll(d) == DecodeFrom(d, <<>>)

---------------------------------------------------------------------------
(* Conversion of a received value to a parameter type: [t: "b" "d" "s" i32 u8 ... or "t", l: types] *)
Integral == DOMAIN Digits
\* conversions between booleans and numbers, and of undefined, are not specified
RECURSIVE Unspecified(_, _)
Unspecified(v, t) == \/ v.k = "u"
                     \/ v.k = "b" /\ t.t \in Integral \cup {"d"}
                     \/ v.k = "n" /\ t.t = "b"
                     \/ v.k = "t" /\ t.t = "t" /\ \E i \in 1..Len(v.l) : i <= Len(t.l) /\ Unspecified(v.l[i], t.l[i])
RECURSIVE Convert(_, _)
Convert(v, t) ==
    CASE t.t = "b" -> IF v.k = "b" THEN [ok |-> TRUE, v |-> v] ELSE Bad
      [] t.t = "s" -> IF v.k \in {"s", "e"} THEN [ok |-> TRUE, v |-> [k |-> "s", r |-> v.r]] ELSE Bad
      [] t.t = "d" -> IF v.k = "n" THEN [ok |-> TRUE, v |-> v] ELSE Bad
      [] t.t \in Integral -> IF v.k = "n" /\ Fits(v.n, Digits[t.t], Signed[t.t]) THEN [ok |-> TRUE, v |-> [k |-> "n", n |-> Trunc(v.n)]] ELSE Bad
      [] OTHER -> IF v.k # "t" \/ (v.k = "t" /\ Len(v.l) # Len(t.l)) THEN Bad
                  ELSE LET xs == [i \in 1..Len(t.l) |-> Convert(v.l[i], t.l[i])]
                       IN IF \A i \in 1..Len(xs) : xs[i].ok THEN [ok |-> TRUE, v |-> [k |-> "t", l |-> [i \in 1..Len(xs) |-> xs[i].v]]] ELSE Bad
\* the parameters of the types ts read from d: each is read and converted in turn
RECURSIVE Read(_, _)
Read(d, ts) ==
    IF ts = <<>> THEN [ok |-> TRUE, l |-> <<>>, rest |-> d, open |-> FALSE]
    ELSE LET x == Decode1(d)
         IN IF ~x.ok THEN [ok |-> FALSE, open |-> FALSE]
            ELSE IF Unspecified(x.v, ts[1]) THEN [ok |-> FALSE, open |-> TRUE]
            ELSE LET c == Convert(x.v, ts[1])
                 IN IF ~c.ok THEN [ok |-> FALSE, open |-> FALSE]
                    ELSE LET y == Read(x.rest, Tail(ts))
                         IN IF y.ok THEN [ok |-> TRUE, l |-> <<c.v>> \o y.l, rest |-> y.rest, open |-> FALSE] ELSE y
\* equality of parameters: an integral one has no negative zero
RECURSIVE SameParam(_, _)
SameParam(a, b) == IF a.k = "n" /\ b.k = "n" THEN SameNumber(a.n, b.n)
                   ELSE IF a.k = "t" /\ b.k = "t" THEN Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) : SameParam(a.l[i], b.l[i])
                   ELSE Same(a, b)
SameParams(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameParam(a[i], b[i])

---------------------------------------------------------------------------
(* Whole messages *)
CallMessage(name, args) ==
    LET body == EncodeList(<<[k |-> "s", r |-> name]>> \o args)
    IN RCat(Rle(<<CallFunction, 1 + Len(args), 0, 0>> \o LE4(RLen(body))), body)
TextMessage(op, text) == RCat(Rle(<<TextCommand, op, RLen(text) \div 256, RLen(text) % 256>>), text)

\* size announced by a call or return message (Len(h) = 8)
Announced(h) == IF h[8] > 0 \/ h[7] > 127 THEN 2147483647 ELSE h[5] + 256 * h[6] + 65536 * h[7]
\* a received call: [ok, name, args: undecoded]
ReadCall(m) ==
    IF RLen(m) < 8 THEN Bad
    ELSE LET h == ExpandHead(m, 8) size == Announced(h)
         IN IF RLen(m) - 8 < size THEN Bad
            ELSE LET x == Decode1(RTake(RDrop(m, 8), size))
                 IN IF ~x.ok THEN Bad
                    ELSE IF x.v.k \in {"s", "e"} THEN [ok |-> TRUE, name |-> x.v.r, args |-> x.rest, open |-> FALSE]
                    ELSE IF x.v.k = "u" THEN [ok |-> TRUE, name |-> <<>>, args |-> x.rest, open |-> TRUE] ELSE Bad
\* what a message sent to a client says
ReadSent(m) ==
    LET n == RLen(m) h == ExpandHead(m, 8)
    IN IF n < 2 THEN [what |-> "garbage"]
       ELSE CASE h[1] = Ack -> IF n = 2 /\ h[2] \in {0, 1} THEN [what |-> "ack"] ELSE [what |-> "garbage"]
              [] h[1] = TextCommand /\ n >= 4 -> IF n = 4 + 256 * h[3] + h[4] /\ h[2] \in {DebugLog, InjectScript}
                                                 THEN [what |-> IF h[2] = DebugLog THEN "log" ELSE "script", text |-> RDrop(m, 4)] ELSE [what |-> "garbage"]
              [] h[1] \in {CallFunction, FunctionReturn} /\ n >= 8 ->
                    LET x == DecodeAll(RDrop(m, 8))
                    IN IF Announced(h) # n - 8 \/ ~x.ok THEN [what |-> "garbage"]
                       ELSE IF h[1] = FunctionReturn THEN [what |-> "return", count |-> h[2], values |-> x.l]
                       ELSE IF x.l = <<>> \/ (x.l # <<>> /\ x.l[1].k # "s") THEN [what |-> "garbage"]
                       ELSE [what |-> "call", count |-> h[2], name |-> x.l[1].r, args |-> Tail(x.l)]
              [] OTHER -> [what |-> "garbage"]
=============================================================================
