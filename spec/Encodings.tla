----------------------------- MODULE Encodings -----------------------------
(* Percent-coding (RFC 3986), base64 (RFC 4648), SHA-1 (FIPS 180-4) and the  *)
(* components of URIs, on byte strings.                                      *)
EXTENDS Bytes, Bitwise

---------------------------------------------------------------------------
(* Percent-coding *)
Unreserved == [c \in 0..255 |-> IsAlpha(c) \/ IsDigit(c) \/ c \in {45, 46, 95, 126}]
PctEncode(s) == FoldLeft(LAMBDA a, c : IF Unreserved[c] THEN Append(a, c)
                                       ELSE a \o <<37, HexUpper(c \div 16), HexUpper(c % 16)>>, <<>>, s)
\* hold: a percent sign and perhaps a hexadecimal digit, not known yet to be a triplet
PctFlush(a) == a.out \o a.hold
PctStep(a, c) ==
    LET n == Len(a.hold)
    IN IF n = 0
       THEN IF c = 37 THEN [a EXCEPT !.hold = <<37>>] ELSE [a EXCEPT !.out = Append(@, IF c = 43 THEN 32 ELSE c)]
       ELSE IF IsHex(c)
       THEN IF n = 2 THEN [out |-> Append(a.out, HexVal(a.hold[2]) * 16 + HexVal(c)), hold |-> <<>>]
            ELSE [a EXCEPT !.hold = Append(@, c)]
       ELSE IF c = 37 THEN [out |-> PctFlush(a), hold |-> <<37>>]
       ELSE [out |-> Append(PctFlush(a), IF c = 43 THEN 32 ELSE c), hold |-> <<>>]
PctDecode(s) == PctFlush(FoldLeft(PctStep, [out |-> <<>>, hold |-> <<>>], s))

---------------------------------------------------------------------------
(* Base64 *)
\* A..Z a..z 0..9 + /
B64Char(q) == IF q < 26 THEN 65 + q ELSE IF q < 52 THEN 71 + q ELSE IF q < 62 THEN q - 4 ELSE IF q = 62 THEN 43 ELSE 47
B64Group(g) == \* 1 to 3 bytes
    LET x == [i \in 1..3 |-> IF i <= Len(g) THEN g[i] ELSE 0]
        q == <<x[1] \div 4, (x[1] % 4) * 16 + (x[2] \div 16), (x[2] % 16) * 4 + (x[3] \div 64), x[3] % 64>>
    IN [i \in 1..4 |-> IF i <= Len(g) + 1 THEN B64Char(q[i]) ELSE 61]
RECURSIVE Base64(_)
Base64(s) == IF s = <<>> THEN <<>> ELSE B64Group(Take(s, 3)) \o Base64(Drop(s, 3))

B64Value(c) == IF c = 61 THEN 0 ELSE IF IsUpper(c) THEN c - 65 ELSE IF IsLower(c) THEN c - 71 ELSE IF IsDigit(c) THEN c + 4 ELSE IF c = 43 THEN 62 ELSE 63
B64Ungroup(g) ==
    LET v == [i \in 1..4 |-> B64Value(g[i])]
        x == <<v[1] * 4 + (v[2] \div 16), (v[2] % 16) * 16 + (v[3] \div 4), (v[3] % 4) * 64 + v[4]>>
    IN SubSeq(x, 1, IF g[3] = 61 THEN 1 ELSE IF g[4] = 61 THEN 2 ELSE 3)
RECURSIVE Base64Decode(_)
Base64Decode(s) == IF s = <<>> THEN <<>> ELSE B64Ungroup(Take(s, 4)) \o Base64Decode(Drop(s, 4))

---------------------------------------------------------------------------
(* SHA-1, with 32 bit words as pairs of 16 bit halves *)
W(hi, lo) == <<hi, lo>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b) == <<a[1] | b[1], a[2] | b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
WAdd(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + (lo \div 65536)) % 65536, lo % 65536>>
Pow2 == [n \in 0..16 |-> 2^n]
WRotl16(a, n) == <<((a[1] * Pow2[n]) % 65536) + (a[2] \div Pow2[16 - n]), ((a[2] * Pow2[n]) % 65536) + (a[1] \div Pow2[16 - n])>>
WRotl(a, n) == IF n >= 16 THEN WRotl16(<<a[2], a[1]>>, n - 16) ELSE WRotl16(a, n)

ShaPad(s) == LET n == Len(s)
                 z == (119 - (n % 64)) % 64      \* zeros after the byte 0x80, before the 8 bytes of the length
             IN s \o <<128>> \o [i \in 1..z |-> 0] \o <<0, 0, 0, 0>> \o BE4(n * 8)
ShaF(i, b, c, d) == IF i < 20 THEN WOr(WAnd(b, c), WAnd(WNot(b), d))
                    ELSE IF i >= 40 /\ i < 60 THEN WOr(WAnd(b, c), WOr(WAnd(b, d), WAnd(c, d)))
                    ELSE WXor(b, WXor(c, d))
ShaK(i) == IF i < 20 THEN <<23170, 31129>> ELSE IF i < 40 THEN <<28377, 60321>> ELSE IF i < 60 THEN <<36635, 48348>> ELSE <<51810, 49622>>
ShaSchedule(blk) ==
    FoldLeft(LAMBDA w, i : Append(w, WRotl(WXor(WXor(w[i - 3], w[i - 8]), WXor(w[i - 14], w[i - 16])), 1)),
             [i \in 1..16 |-> <<blk[4 * i - 3] * 256 + blk[4 * i - 2], blk[4 * i - 1] * 256 + blk[4 * i]>>],
             [i \in 1..64 |-> i + 16])
ShaRound(v, i, w) == \* v = <<a, b, c, d, e>>
    <<WAdd(WAdd(WAdd(WRotl(v[1], 5), ShaF(i, v[2], v[3], v[4])), WAdd(v[5], ShaK(i))), w[i + 1]), v[1], WRotl(v[2], 30), v[3], v[4]>>
ShaBlock(h, blk) ==
    LET w == ShaSchedule(blk)
        v == FoldLeft(LAMBDA x, i : ShaRound(x, i, w), h, [i \in 1..80 |-> i - 1])
    IN [i \in 1..5 |-> WAdd(h[i], v[i])]
ShaInit == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>
RECURSIVE ShaBlocks(_, _)
ShaBlocks(h, s) == IF s = <<>> THEN h ELSE ShaBlocks(ShaBlock(h, SubSeq(s, 1, 64)), Drop(s, 64))
\* the five words of the digest
Sha1Words(s) == ShaBlocks(ShaInit, ShaPad(s))
WBytes(w) == BE2(w[1]) \o BE2(w[2])
\* the digest as 20 bytes
Sha1(s) == LET w == Sha1Words(s) IN Concat([i \in 1..5 |-> WBytes(w[i])])
HexText(s) == Concat([i \in 1..Len(s) |-> <<HexLower(s[i] \div 16), HexLower(s[i] % 16)>>])

\* answer to a WebSocket key
WsGuid == B("258EAFA5-E914-47DA-95CA-C5AB0DC85B11")
WsAccept(key) == Base64(Sha1(key \o WsGuid))

---------------------------------------------------------------------------
(* Components of URIs: scheme://userinfo@host:port/path?query#fragment       *)
IndexOf(s, set) == IF \E i \in 1..Len(s) : s[i] \in set THEN CHOOSE i \in 1..Len(s) : s[i] \in set /\ \A j \in 1..(i - 1) : s[j] \notin set
                   ELSE Len(s) + 1
Head1(s, set) == SubSeq(s, 1, IndexOf(s, set) - 1)
Rest1(s, set) == SubSeq(s, IndexOf(s, set), Len(s))
AuthEnd == {47, 63, 35}   \* / ? #
UriSplit(s) ==
    LET m == Find(s, B("://"))
        hasScheme == m > 0 /\ m < IndexOf(s, AuthEnd)
        scheme == IF hasScheme THEN SubSeq(s, 1, m - 1) ELSE <<>>
        r0 == IF hasScheme THEN Drop(s, m) ELSE s
        hasAuth == HasPrefix(r0, <<47, 47>>)
        a0 == IF hasAuth THEN Drop(r0, 2) ELSE <<>>
        authority == IF hasAuth THEN Head1(a0, AuthEnd) ELSE <<>>
        r1 == IF hasAuth THEN Rest1(a0, AuthEnd) ELSE r0
        path == Head1(r1, {63, 35})
        r2 == Rest1(r1, {63, 35})
        query == IF HasPrefix(r2, <<63>>) THEN Head1(Tail(r2), {35}) ELSE <<>>
        r3 == IF HasPrefix(r2, <<63>>) THEN Rest1(Tail(r2), {35}) ELSE r2
        fragment == IF HasPrefix(r3, <<35>>) THEN Tail(r3) ELSE <<>>
        at == FindByte(authority, 64)
        userinfo == IF at > 0 THEN SubSeq(authority, 1, at - 1) ELSE <<>>
        hp == IF at > 0 THEN Drop(authority, at) ELSE authority
        close == IF HasPrefix(hp, <<91>>) THEN FindByte(hp, 93) ELSE 0
        colon == FindByte(Drop(hp, close), 58)
    IN [scheme |-> scheme, authority |-> authority, path |-> path, query |-> query, fragment |-> fragment, userinfo |-> userinfo,
        host |-> IF colon > 0 THEN SubSeq(hp, 1, close + colon - 1) ELSE hp,
        port |-> IF colon > 0 THEN Drop(hp, close + colon) ELSE <<>>]
=============================================================================
