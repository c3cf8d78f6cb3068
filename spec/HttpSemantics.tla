--------------------------- MODULE HttpSemantics ---------------------------
(* What a request designates and which answer it deserves. Responses are     *)
(* read from the bytes the client received (run-length encoded).             *)
EXTENDS HttpParser, Encodings

---------------------------------------------------------------------------
(* Reading a response                                                        *)
MaxHead == 4096
\* status line and fields of the text which precedes the first empty line
StatusOf(l) == LET p == Split(l, SP)
               IN IF Len(p) >= 2 /\ HasPrefix(p[1], B("HTTP/1.")) /\ Len(p[2]) = 3 /\ IsNum(p[2]) THEN Num(p[2]) ELSE -1
ReadResponse(o) ==
    LET text == ExpandHead(o, MaxHead)
        e == Find(text, CRLF \o CRLF)
    IN IF e = 0 THEN [complete |-> FALSE]
       ELSE LET ls == LinesOf(SubSeq(text, 1, e - 1))
                fls == Tail(ls)
                ok == \A i \in 1..Len(fls) : IsFieldLine(fls[i])
            IN [complete |-> TRUE, valid |-> ok /\ StatusOf(ls[1]) # -1, status |-> StatusOf(ls[1]),
                fields |-> IF ok THEN FieldsOf(fls) ELSE <<>>, body |-> RDrop(o, e + 3)]
FieldValue(r, name) == ValuesOf(r.fields, B(name))
HasField(r, name, value) == FieldValue(r, name) = <<value>>
\* the length announced by a response, -1 if there is not exactly one
Announced(r) == LET v == FieldValue(r, "Content-Length") IN IF Len(v) = 1 /\ IsNum(v[1]) THEN Num(v[1]) ELSE -1
NoBodyStatus(s) == s < 200 \/ s = 204 \/ s = 304

\* o is one whole response to a request of method m ("?": unknown, nothing was recognised)
OneResponse(o, m) ==
    LET r == ReadResponse(o)
    IN /\ r.complete /\ r.valid
       /\ IF NoBodyStatus(r.status) THEN r.body = <<>>
          ELSE /\ Announced(r) >= 0 \/ m = "HEAD"
               /\ CASE m = "HEAD" -> r.body = <<>>
                    [] m = "?" -> RLen(r.body) \in {0, Announced(r)}
                    [] OTHER -> RLen(r.body) = Announced(r)

---------------------------------------------------------------------------
(* Requests                                                                  *)
MethodOf(p) == IF p.st # "done" THEN "?" ELSE IF p.m = B("GET") THEN "GET" ELSE IF p.m = B("HEAD") THEN "HEAD" ELSE "other"

PathOf(p) == LET q == FindByte(p.t, 63) IN PctDecode(IF q = 0 THEN p.t ELSE SubSeq(p.t, 1, q - 1))
Segments(path) == Split(path, 47)
Parent == <<46, 46>>
HasParentSegment(path) == \E i \in 1..Len(Segments(path)) : Segments(path)[i] = Parent
HasNul(path) == \E i \in 1..Len(path) : path[i] = 0
\* such a target must be refused
MustRefuse(path) == path = <<>> \/ path[1] # 47 \/ HasParentSegment(path) \/ HasNul(path)
\* the property says nothing about names which contain two dots without being ".."
MayRefuse(path) == MustRefuse(path) \/ HasSub(path, Parent)

\* relative name of the file which a path designates
FileName(path) == LET rel == Concat([i \in 1..Len(path) |-> IF \A j \in 1..i : path[j] = 47 THEN <<>> ELSE <<path[i]>>])
                  IN IF path[Len(path)] = 47 THEN rel \o B("index.html") ELSE rel

LastSegment(name) == Last(Segments(name))
Extension(name) == LET s == LastSegment(name) d == FindLast(s, 46) IN IF d <= 1 THEN <<>> ELSE Drop(s, d)
MimeTypes == << <<"js", "application/javascript">>, <<"mjs", "application/javascript">>, <<"htm", "text/html">>, <<"html", "text/html">>,
                <<"jpg", "image/jpeg">>, <<"jpeg", "image/jpeg">>, <<"css", "text/css">>, <<"png", "image/png">>, <<"gif", "image/gif">>,
                <<"json", "application/json">>, <<"pdf", "application/pdf">>, <<"ttf", "font/ttf">>, <<"ico", "image/x-icon">>,
                <<"svg", "image/svg+xml">>, <<"webp", "image/webp">>, <<"csv", "text/csv">> >>
Mime(name) == LET m == SelectSeq(MimeTypes, LAMBDA x : B(x[1]) = Extension(name)) IN IF m = <<>> THEN B("text/plain") ELSE B(m[1][2])

AsksWebSocket(p) == /\ MethodOf(p) = "GET"
                    /\ FieldContains(p.fs, B("Connection"), B("upgrade"))
                    /\ FieldContains(p.fs, B("Upgrade"), B("websocket"))
                    /\ ValuesOf(p.fs, B("Sec-WebSocket-Key")) # <<>>
KeyOf(p) == ValuesOf(p.fs, B("Sec-WebSocket-Key"))[1]

---------------------------------------------------------------------------
(* The answer to a request. files: sequence of [n: name, d: bytes, e: encoding] *)
Lookup0(files, name) == SelectSeq(files, LAMBDA f : f.n = name)
ExpectedStatus(p, files) ==
    IF p.st = "bad" THEN {400}
    ELSE LET path == PathOf(p) IN
         IF MustRefuse(path) THEN {400}
         ELSE (IF MayRefuse(path) THEN {400} ELSE {}) \cup
              CASE MethodOf(p) = "other" -> {501}
                [] AsksWebSocket(p) -> {101}
                [] OTHER -> LET f == Lookup0(files, FileName(path))
                            IN IF f = <<>> THEN {404}
                               ELSE IF MethodOf(p) = "GET" /\ f[1].e # <<>> /\ ~FieldContains(p.fs, B("Accept-Encoding"), f[1].e) THEN {506}
                               ELSE {200}
\* r serves the file which p designates
ServesFile(r, p, files) ==
    LET name == FileName(PathOf(p)) f == Lookup0(files, name)[1]
    IN /\ HasField(r, "Content-Type", Mime(name))
       /\ HasField(r, "Content-Length", Dec(RLen(f.d)))
       /\ FieldValue(r, "Content-Encoding") = IF f.e = <<>> THEN <<>> ELSE <<f.e>>
       /\ r.body = IF MethodOf(p) = "HEAD" THEN <<>> ELSE f.d
Serves(o, p, files) ==
    LET r == ReadResponse(o)
    IN /\ r.complete /\ r.valid
       /\ r.status \in ExpectedStatus(p, files)
       /\ r.status = 200 => ServesFile(r, p, files)
       /\ (r.status # 200 /\ MethodOf(p) = "HEAD") => r.body = <<>>
UpgradeFields(o, p) ==
    LET r == ReadResponse(o)
    IN /\ r.complete /\ r.valid /\ r.status = 101
       /\ \E i \in 1..Len(FieldValue(r, "Upgrade")) : Lower(FieldValue(r, "Upgrade")[i]) = B("websocket")
       /\ \E i \in 1..Len(FieldValue(r, "Connection")) : Lower(FieldValue(r, "Connection")[i]) = B("upgrade")
       /\ HasField(r, "Sec-WebSocket-Accept", WsAccept(KeyOf(p)))
       /\ r.body = <<>>
============================================================================
