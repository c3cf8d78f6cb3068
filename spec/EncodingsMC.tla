----------------------------- MODULE EncodingsMC -----------------------------
(* The codings on all the short texts over the significant characters.        *)
(* MODE: pct, b64, uri. The texts are printed on demand, for the real code.   *)
EXTENDS Encodings, TLC, Json, IOUtils
CONSTANTS PctChars, PctMax, B64Chars, B64Max, UriChars, UriMax
VARIABLE text
vars == <<text>>
Chars == CASE IOEnv.MODE = "pct" -> PctChars [] IOEnv.MODE = "b64" -> B64Chars [] OTHER -> UriChars
Limit == CASE IOEnv.MODE = "pct" -> PctMax [] IOEnv.MODE = "b64" -> B64Max [] OTHER -> UriMax
Init == text = <<>>
Next == Len(text) < Limit /\ \E c \in Chars : text' = Append(text, c)
Spec == Init /\ [][Next]_vars

Pct == IOEnv.MODE = "pct" =>
    LET e == PctEncode(text) d == PctDecode(text)
    IN /\ PctDecode(e) = text
       /\ \A i \in 1..Len(e) : Unreserved[e[i]] \/ e[i] = 37
       /\ Len(d) <= Len(text)
       /\ (37 \notin {text[i] : i \in 1..Len(text)} /\ 43 \notin {text[i] : i \in 1..Len(text)}) => d = text
       /\ PctDecode(text \o e) = PctDecode(text) \o text \/ text = <<>> \/ Last(text) = 37 \/ (Len(text) > 1 /\ text[Len(text) - 1] = 37) \* what follows a text which cannot begin a triplet does not change it
B64 == IOEnv.MODE = "b64" =>
    LET e == Base64(text)
    IN /\ Len(e) = 4 * ((Len(text) + 2) \div 3)
       /\ Base64Decode(e) = text
       /\ (Len(text) < 3 => Len(Sha1(text)) = 20)
If(b, x) == IF b THEN x ELSE <<>>
\* the URI can be written again from its components and the delimiters it has
Uri == IOEnv.MODE = "uri" =>
    LET u == UriSplit(text)
    IN /\ \E a, q, f \in BOOLEAN, sc \in BOOLEAN :
             text = If(sc, u.scheme \o <<58>>) \o If(a, <<47, 47>>) \o u.authority \o u.path \o If(q, <<63>>) \o u.query \o If(f, <<35>>) \o u.fragment
       /\ \E at, co \in BOOLEAN : u.authority = u.userinfo \o If(at, <<64>>) \o u.host \o If(co, <<58>>) \o u.port
       /\ \A i \in 1..Len(u.path) : u.path[i] \notin {63, 35}
       /\ 35 \notin {u.query[i] : i \in 1..Len(u.query)}
       /\ \A i \in 1..Len(u.authority) : u.authority[i] \notin {47, 63, 35}
Shown == IOEnv.TIER # "gen" \/ PrintT(ToJson(text))
=============================================================================
