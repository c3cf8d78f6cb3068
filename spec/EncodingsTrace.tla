--------------------------- MODULE EncodingsTrace ---------------------------
(* Recorded codings of the real code against Encodings.                       *)
EXTENDS TraceBase, Encodings
vars == <<tid, pos>>
Init == TraceInit
Parts == <<"scheme", "authority", "path", "query", "fragment", "userinfo", "host", "port">>
\* digests of texts of n bytes v, which are too long to be computed here
Known == {
    [n |-> 8192, v |-> 97, hex |-> B("2727756cfee3fbfe24bf5650123fd7743d7b3465")],
    [n |-> 9001, v |-> 255, hex |-> B("2e3ae2d099069942667aab514f5845ca09fa96d2")],
    [n |-> 70000, v |-> 0, hex |-> B("4f85676b773b3616664160a70aa87f68e4a5b2b2")],
    [n |-> 2097152, v |-> 97, hex |-> B("b84b7b775430232c2ee4e2216db1a591d97b2db0")],
    [n |-> 2200003, v |-> 16, hex |-> B("5eb3b897ece91404900531026e454d67577ed8a9")],
    [n |-> 536870912, v |-> 97, hex |-> B("0ea59bfe8787939816796610c73deb1c625e03ed")]}
Right == CASE E.o = "pcte" -> E.r = PctEncode(E.t) /\ E.back = E.t
           [] E.o = "pctd" -> E.r = PctDecode(E.t)
           [] E.o = "b64" -> E.r = Base64(E.t)
           [] E.o = "sha" -> LET h == Sha1(E.t) IN E.bin = h /\ E.hex = HexText(h) /\ E.b64 = Base64(h)
           [] E.o = "net" -> E.r = Base64(E.t)
           [] E.o = "uri" -> LET u == UriSplit(E.t) IN E.whole = E.t /\ \A i \in 1..8 : E.p[i] = u[Parts[i]]
           [] E.o = "huge" -> [n |-> E.n, v |-> E.v, hex |-> E.hex] \in Known
           [] OTHER -> FALSE
Next == Consume /\ Right /\ Report
Spec == Init /\ [][Next]_vars
=============================================================================
