------------------------------ MODULE WsFrame ------------------------------
(* Frames of the WebSocket protocol (RFC 6455) and their decoding, on         *)
(* run-length encoded byte strings. The widths of the fields are parameters:  *)
(* exhaustive configurations use a scaled down format.                        *)
EXTENDS Bytes, Bitwise, TLC

CONSTANT F
\* the format of the RFC
Real == [c16 |-> 126, c64 |-> 127, lim16 |-> 65536, n16 |-> 2, n64 |-> 8, nkey |-> 4]
\* same structure: lengths 0 and 1 are direct, 2 has one more byte, 3 and more two
Scaled == [c16 |-> 2, c64 |-> 3, lim16 |-> 3, n16 |-> 1, n64 |-> 2, nkey |-> 2]

Continuation == 0
Text == 1
Binary == 2
CloseOp == 8
Ping == 9
Pong == 10
IsControl(op) == op >= 8

Huge == 2147483647
\* n-byte big endian form of a length
RECURSIVE BE(_, _)
BE(v, n) == IF n = 0 THEN <<>> ELSE Append(BE(v \div 256, n - 1), v % 256)
\* value of a big endian number, Huge if it does not fit
Value(s) == FoldLeft(LAMBDA a, x : IF a > 8388606 THEN Huge ELSE a * 256 + x, 0, s)

LengthCode(n) == IF n < F.c16 THEN n ELSE IF n < F.lim16 THEN F.c16 ELSE F.c64
ExtSize(code) == IF code = F.c16 THEN F.n16 ELSE IF code = F.c64 THEN F.n64 ELSE 0
\* header of a frame whose length is coded with code (the shortest possible is LengthCode(n)); key: <<>> if the frame is not masked
Header(fin, op, key, n, code) ==
    <<(IF fin THEN 128 ELSE 0) + op, (IF key = <<>> THEN 0 ELSE 128) + code>> \o BE(n, ExtSize(code)) \o key

Unmask(r, key) == \* r: run-length encoded
    IF key = <<>> THEN r
    ELSE IF \A i \in 1..Len(key) : key[i] = key[1] THEN [i \in 1..Len(r) |-> <<r[i][1] ^^ key[1], r[i][2]>>]
    ELSE LET s == Expand(r) IN RleOf([i \in 1..Len(s) |-> s[i] ^^ key[((i - 1) % Len(key)) + 1]])

\* f: [fin, op, key, d: payload, run-length encoded, code]
Wire(f) == RCat(RleOf(Header(f.fin, f.op, f.key, RLen(f.d), f.code)), Unmask(f.d, f.key))
\* what a server sends for a message
ServerFrame(op, d) == Wire([fin |-> TRUE, op |-> op, key |-> <<>>, d |-> d, code |-> LengthCode(RLen(d))])

---------------------------------------------------------------------------
(* Decoding. h: bytes of the header of the current frame, w: payload received *)
(* for it, t and m: type and payload of the fragmented message in progress,   *)
(* out: what was completed by the last input                                  *)
Decoder == [h |-> <<>>, w |-> <<>>, wl |-> 0, t |-> 0, m |-> <<>>, out |-> <<>>]

Fin(h) == h[1] >= 128
Op(h) == h[1] % 16
Masked(h) == h[2] >= 128
Code(h) == h[2] % 128
HeadSize(h) == IF Len(h) < 2 THEN 2 ELSE 2 + ExtSize(Code(h)) + (IF Masked(h) THEN F.nkey ELSE 0)
HeadDone(h) == Len(h) >= 2 /\ Len(h) = HeadSize(h)
PayloadSize(h) == IF Code(h) \in {F.c16, F.c64} THEN Value(SubSeq(h, 3, 2 + ExtSize(Code(h)))) ELSE Code(h)
Key(h) == IF Masked(h) THEN SubSeq(h, HeadSize(h) - F.nkey + 1, HeadSize(h)) ELSE <<>>

\* a whole frame was received
Complete(d) ==
    LET data == Unmask(d.w, Key(d.h)) op == Op(d.h) fin == Fin(d.h)
        e == [d EXCEPT !.h = <<>>, !.w = <<>>, !.wl = 0]
    IN IF op = CloseOp THEN [e EXCEPT !.out = Append(@, [t |-> CloseOp, d |-> <<>>])]
       ELSE IF IsControl(op) THEN e
       ELSE IF op = Continuation
       THEN IF d.t = 0 THEN e
            ELSE IF fin THEN [e EXCEPT !.out = Append(@, [t |-> d.t, d |-> RCat(d.m, data)]), !.t = 0, !.m = <<>>]
            ELSE [e EXCEPT !.m = RCat(@, data)]
       ELSE IF fin THEN IF op \in {Text, Binary} THEN [e EXCEPT !.out = Append(@, [t |-> op, d |-> data])] ELSE e
       ELSE [e EXCEPT !.t = op, !.m = data]
Settle(d) == IF HeadDone(d.h) /\ d.wl = PayloadSize(d.h) THEN Complete(d) ELSE d

RECURSIVE Decode(_, _)
\* r: input, run-length encoded
Decode(d, r) ==
    IF r = <<>> THEN d
    ELSE IF ~HeadDone(d.h)
    THEN LET n == HeadSize(d.h) - Len(d.h) part == ExpandHead(r, n)
         IN Decode(Settle([d EXCEPT !.h = @ \o part]), RDrop(r, Len(part)))
    ELSE LET need == PayloadSize(d.h) - d.wl len == RLen(r)
         IN IF len <= need THEN Settle([d EXCEPT !.w = RCat(@, r), !.wl = @ + len])
            ELSE Decode(Settle([d EXCEPT !.w = RCat(@, RTake(r, need)), !.wl = @ + need]), RDrop(r, need))
Feed(d, r) == Decode([d EXCEPT !.out = <<>>], r)

---------------------------------------------------------------------------
(* The frames of a stream, one by one, whatever the messages they belong to  *)
Framer == [h |-> <<>>, w |-> <<>>, wl |-> 0, out |-> <<>>]
FrameDone(d) == IF HeadDone(d.h) /\ d.wl = PayloadSize(d.h)
                THEN [h |-> <<>>, w |-> <<>>, wl |-> 0, out |-> Append(d.out, [op |-> Op(d.h), fin |-> Fin(d.h), d |-> Unmask(d.w, Key(d.h))])]
                ELSE d
RECURSIVE Frames(_, _)
Frames(d, r) ==
    IF r = <<>> THEN d
    ELSE IF ~HeadDone(d.h)
    THEN LET part == ExpandHead(r, HeadSize(d.h) - Len(d.h))
         IN Frames(FrameDone([d EXCEPT !.h = @ \o part]), RDrop(r, Len(part)))
    ELSE LET need == PayloadSize(d.h) - d.wl len == RLen(r)
         IN IF len <= need THEN FrameDone([d EXCEPT !.w = RCat(@, r), !.wl = @ + len])
            ELSE Frames(FrameDone([d EXCEPT !.w = RCat(@, RTake(r, need)), !.wl = @ + need]), RDrop(r, need))
=============================================================================
