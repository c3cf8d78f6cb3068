-------------------------- MODULE HttpServerTrace --------------------------
(* Recorded runs of the real server against HttpServer. ASPECT selects what   *)
(* is required of the answers:                                                *)
(*  recog   : nothing, only when they start                                   *)
(*  frame   : each is one complete, correctly delimited response              *)
(*  solo    : each is the one obtained by the same request alone              *)
(*  serve   : each is what the request and the files call for                 *)
(*  confine : refused targets get 400 and open nothing, nothing outside is    *)
(*            opened or served                                                *)
(*  life    : each is delivered; everything is released                       *)
(*  upgrade : 101 iff asked for, with the right fields, then handed over      *)
EXTENDS TraceBase, HttpSemantics

VARIABLES conn,
          files,   \* files of the document root
          solo,    \* outcome of requests alone
          which,   \* request which each connection sends
          reader,  \* last connection which received something
          ups      \* upgrade: bytes sent by each client and not received yet by the owner of its handed over socket
vars == <<tid, pos, conn, files, solo, which, reader, ups>>

Ids == 1..20

MayAnswer(p) == p.st \in {"done", "bad"}
MustAnswer(p) == p.st = "done" \/ (p.st = "bad" /\ p.end = 4)

AllowedHere(c, p, o) == IF Aspect = "solo" THEN RIsPrefix(o, solo[which[c]]) ELSE TRUE
SecretMark == B("TOP-SECRET")
WholeHere(c, p, o) ==
    /\ MayAnswer(p)
    /\ CASE Aspect = "recog" -> o # <<>>
         [] Aspect = "frame" -> OneResponse(o, MethodOf(p))
         [] Aspect = "solo" -> o = solo[which[c]]
         [] Aspect = "serve" -> Serves(o, p, files)
         [] Aspect = "confine" -> LET r == ReadResponse(o)
                                  IN /\ r.complete
                                     /\ (p.st = "done" /\ MustRefuse(PathOf(p))) => r.status = 400
                                     /\ ~HasSub(ExpandHead(r.body, 200), SecretMark)
         [] Aspect = "life" -> o # <<>> /\ ~conn[c].pend
         [] Aspect = "upgrade" -> LET r == ReadResponse(o)
                                  IN /\ r.complete
                                     /\ IF p.st = "done" /\ AsksWebSocket(p) /\ ~MustRefuse(PathOf(p)) THEN r.status = 400 /\ MayRefuse(PathOf(p))
                                        ELSE r.status # 101
UpgradesHere(c, p, o) ==
    CASE Aspect = "upgrade" -> p.st = "done" /\ AsksWebSocket(p) /\ ~MustRefuse(PathOf(p)) /\ ~conn[c].pend /\ UpgradeFields(o, p)
      [] Aspect \in {"frame", "serve", "solo"} -> WholeHere(c, p, o)
      [] OTHER -> MayAnswer(p) /\ o # <<>>

H == INSTANCE HttpServer WITH Conns <- Ids, Nothing <- <<>>, Cat <- RCat, Feed <- Run,
        May <- MayAnswer, Must <- MustAnswer
Whole(c) == WholeHere(c, conn[c].p, conn[c].out)

Init == TraceInit /\ H!HInit /\ files = <<>> /\ solo = <<>> /\ which = <<>> /\ reader = 0 /\ ups = [c \in Ids |-> <<>>]

Keep == UNCHANGED <<files, solo, which, reader, ups>>
Same == UNCHANGED conn /\ Keep
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

File == E.o = "file" /\ files' = Append(files, [n |-> E.n, d |-> E.d, e |-> E.e]) /\ UNCHANGED <<conn, solo, which, reader, ups>>
Solo == /\ E.o = "solo" /\ solo' = Put(solo, E.k, E.d) /\ UNCHANGED <<conn, files, which, reader, ups>>
Connect == /\ E.o = "conn" /\ E.ok    \* the server always accepts connections
           /\ H!Accept(E.c)
           /\ which' = Put(which, E.c, E.k) /\ UNCHANGED <<files, solo, reader, ups>>
Push == /\ E.o = "push"
        /\ ups' = [ups EXCEPT ![E.c] = @ \o E.d]
        /\ UNCHANGED <<conn, files, solo, which, reader>>
Read == /\ E.o = "read" /\ H!Read(E.c, E.d)
        /\ Aspect = "upgrade" => ~(conn[E.c].p.st = "done" /\ AsksWebSocket(conn[E.c].p))   \* would be lost for the WebSocket
        /\ ups' = [ups EXCEPT ![E.c] = Drop(@, Len(E.d))]
        /\ reader' = E.c /\ UNCHANGED <<files, solo, which>>
ReadEnd == E.o = "readend" /\ H!ReadEnd(E.c) /\ Keep
Fin == E.o = "fin" /\ H!Fin(E.c) /\ Keep
Reset == E.o = "reset" /\ H!Reset(E.c) /\ Keep
Pend == E.o = "pend" /\ (IF conn[E.c].ph = "open" THEN H!Pend(E.c, E.n) ELSE UNCHANGED conn /\ ~E.n) /\ Keep
Out == E.o = "out" /\ H!Out(E.c, E.d, AllowedHere(E.c, conn[E.c].p, RCat(conn[E.c].out, E.d))) /\ Keep
Eof == E.o = "eof" /\ (IF conn[E.c].ph = "up" THEN UNCHANGED conn ELSE H!Eof(E.c, Whole(E.c))) /\ Keep
Closed == E.o = "closed" /\ (IF conn[E.c].ph = "up" THEN UNCHANGED conn ELSE H!Close(E.c, Whole(E.c))) /\ Keep
\* recorded before the last bytes and the end of the write it follows are: both are observed after the step
Upg == /\ E.o = "upg" /\ (Aspect = "upgrade" => E.ws)
       /\ H!HandOver(E.c, UpgradesHere(E.c, conn[E.c].p, conn[E.c].out)) /\ Keep
\* the owner of the socket receives exactly what the client sent after its request
Upread == /\ E.o = "upread"
          /\ Aspect = "upgrade" => HasPrefix(ups[E.c], E.d)
          /\ ups' = [ups EXCEPT ![E.c] = Drop(@, Len(E.d))]
          /\ UNCHANGED <<conn, files, solo, which, reader>>
Open == /\ E.o = "open"
        /\ Aspect = "confine" => /\ reader # 0 /\ conn[reader].p.st = "done"
                                 /\ ~MustRefuse(PathOf(conn[reader].p))
                                 /\ ~HasParentSegment(E.f) /\ ~HasNul(E.f) /\ (E.f # <<>> => E.f[1] # 47)
        /\ Same
Outside == E.o = "outside" /\ Aspect # "confine" /\ Same
Quiescent == /\ E.o = "q"
             /\ Aspect = "recog" => \A c \in Ids : H!Answers(c)
             /\ Aspect = "life" => H!Quiet
             /\ Same
Settled == /\ E.o = "settled"
           /\ \A c \in Ids :
                /\ Aspect # "life" => (conn[c].ph = "open" /\ H!Decided(c) => H!Answering(c) \/ H!Lost(c))
                /\ Aspect = "life" => (conn[c].ph = "open" => conn[c].peer = "up" /\ ~conn[c].pend /\ conn[c].out = <<>>) /\ H!Answers(c)
                /\ Aspect = "upgrade" => (conn[c].ph # "none" /\ conn[c].p.st = "done" /\ AsksWebSocket(conn[c].p) /\ ~MayRefuse(PathOf(conn[c].p)) /\ ~H!Lost(c) => conn[c].ph = "up")
                /\ (Aspect = "upgrade" /\ conn[c].ph = "up") => ups[c] = <<>>
                /\ Aspect \in {"frame", "solo", "serve"} => (conn[c].ph = "open" /\ conn[c].out # <<>> => WholeHere(c, conn[c].p, conn[c].out) \/ H!Lost(c))
           /\ Same
\* after many complete exchanges: nothing of them remains
Growth == /\ E.o = "growth"
          /\ Aspect = "life" => E.bytes <= 16 * E.n + 256 /\ E.left = 0
          /\ Same
AcceptFail == E.o = "acceptfail" /\ Same

Next == Consume /\ (File \/ Solo \/ Connect \/ Push \/ Read \/ ReadEnd \/ Fin \/ Reset \/ Pend \/ Out \/ Eof \/ Closed \/ Upg \/ Upread \/ Open
                    \/ Outside \/ Quiescent \/ Settled \/ Growth \/ AcceptFail) /\ Report
Spec == Init /\ [][Next]_vars
============================================================================
