--------------------------- MODULE HttpParserMC ---------------------------
(* Explores every request head made of one alternative for each slot of a   *)
(* template (well formed and malformed ones) and checks that the recogniser *)
(* decides exactly the grammar, at the last byte and not before. The same   *)
(* exploration produces the heads which are given to the real parser.       *)
EXTENDS HttpParser, TLC, Json, IOUtils

CONSTANTS Template,   \* "line" or "fields"
          Emit        \* prints the heads

Line == <<
    {B("GET"), B("g"), B("G(T"), <<>>, B("G") \o <<128>>, B("G") \o <<0>>, B("DELETE"), B("P-1!#")},
    {<<SP>>, <<SP, SP>>, <<HT>>, <<>>},
    {B("/"), B("/a%20b?c=d"), B("*"), <<47, 195, 169>>, <<47, 127>>, <<47, 31>>, B("/a") \o <<CR, LF>>},
    {<<SP>>, <<SP, SP>>, <<HT>>, <<>>},
    {B("HTTP/1.1"), B("HTTP/1.0"), B("HTTP/0.9"), B("HTTP/12.34"), B("http/1.1"), B("HTTP/1."), B("HTTP/.1"), B("HTTP/1.1 "), B("HTTP1.1"), B("HTTP/1.x"), B("HTTP/1"), B("HTP/1.1"), B("HTTP/-1.1")},
    {CRLF, <<LF>>, <<CR>>, <<CR, CR, LF>>, CRLF \o <<SP>> \o CRLF},
    {CRLF, <<LF>>, B("A: b") \o CRLF \o CRLF, B("A: b") \o CRLF} >>

FieldLine == {
    B("A:b"), B("A: b c "), B("A:") \o <<HT, 98, HT>>, B("A:"), B("A: "), B(" c"), <<HT, SP>>, <<HT>> \o B("x: y") \o <<SP>>,
    B("Content-Length: 0"), B("a:\"x:;=\""), <<65, 58, 195, 169>>, <<65, 58, SP, 255, SP>>,
    B(":b"), B("A b"), B("A b: c"), <<195, 58, 98>>, B("A:b") \o <<1>>, B("A:") \o <<127>>, B("A:b") \o <<CR>>, <<LF>>, B("A(:b"), <<SP, 1>>, B("A:b") \o <<LF, 67>>, <<>> }
Fields == << {B("GET / HTTP/1.1") \o CRLF}, FieldLine, {CRLF, CRLF \o CRLF}, FieldLine, {CRLF, <<LF>>}, FieldLine \cup {<<0>>}, {CRLF \o CRLF, CRLF} >>

Slots == IF Template = "line" THEN Line ELSE Fields

\* one head out of MOD, which ones depending on the seed
ModIn == atoi(IOEnv.MOD)
SeedIn == atoi(IOEnv.SEED)
Sampled(t) == FoldLeft(LAMBDA a, x : (a * 31 + x + 7) % 10007, 1, t) % ModIn = SeedIn % ModIn

VARIABLES text, k, parser
vars == <<text, k, parser>>

Init == text = <<>> /\ k = 1 /\ parser = Start
Next == /\ k <= Len(Slots)
        /\ \E s \in Slots[k] :
             /\ text' = text \o s
             /\ parser' = Run(parser, s)
             /\ k' = k + 1
        /\ (Emit /\ k' = Len(Slots) + 1 /\ Sampled(text')) => PrintT(ToJson([head |-> text']))
Spec == Init /\ [][Next]_vars

\* done iff some prefix is well formed (and then it is the shortest one which is reported)
Decides ==
    LET good == {i \in 4..Len(text) : SubSeq(text, i - 3, i) = CRLF \o CRLF /\ WellFormed(SubSeq(text, 1, i))}
    IN IF k <= Len(Slots) THEN TRUE
       ELSE IF good # {}
       THEN LET first == CHOOSE i \in good : \A j \in good : i <= j
            IN /\ Verdict(parser) = "done" /\ Result(parser) = Meaning(SubSeq(text, 1, first))
               /\ Verdict(Run(Start, SubSeq(text, 1, first))) = "done"
               /\ Verdict(Run(Start, SubSeq(text, 1, first - 1))) = "more"
       ELSE Verdict(parser) # "done"
\* a head which is not well formed though it is terminated is rejected
Rejects == (k > Len(Slots) /\ parser.end = 4 /\ Verdict(parser) # "done") => Verdict(parser) = "bad"
=============================================================================
