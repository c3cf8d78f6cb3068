------------------------------ MODULE WebFront ------------------------------
(* The application level: browser clients linked to a WebFront server. A      *)
(* client is known once its WebSocket is established. Messages are whole      *)
(* WebSocket messages [t |-> type, d |-> payload]; the way they are cut and   *)
(* framed is specified in WsFrame and WebSocket.                              *)
(*                                                                            *)
(* State of a client:                                                         *)
(*   st      : "none", "up", "ending" (its end was received), "over"          *)
(*   hello   : a handshake was received                                       *)
(*   started : the application was told that its UI has started               *)
(*   due     : what remains to be done for the received messages, in order    *)
(*   acks    : handshakes which remain to be acknowledged                     *)
(*   acked   : one was acknowledged                                           *)
(*   rets    : answers to calls which remain to be sent                       *)
(*   app     : what the application asked to send through its UI              *)
(*   log     : log lines which remain to be sent                              *)
(*   early   : it called functions before its handshake, which is unspecified *)
(* Items marked opt are allowed, not required.                                *)
EXTENDS Messages

CONSTANTS Clients,
          Functions,  \* registered functions: [name, types, throws]
          Lax         \* aspects which are not to be looked at

VARIABLE cl

NoClient == [st |-> "none", hello |-> FALSE, started |-> FALSE, due |-> <<>>, acks |-> 0, acked |-> FALSE, rets |-> <<>>, app |-> <<>>, log |-> <<>>, early |-> FALSE]
FrontInit == cl = [c \in Clients |-> NoClient]
Upd(c, r) == cl' = [cl EXCEPT ![c] = r]
Present(c) == cl[c].st \in {"up", "ending"}

Connect(c) == cl[c].st \in {"none", "over"} /\ Upd(c, [NoClient EXCEPT !.st = "up"])

---------------------------------------------------------------------------
(* Reception *)
Item(i) == [i |-> i]
Must == [opt |-> FALSE]
May == [opt |-> TRUE]
\* effect of one received message on a client
Receive1(k, m) ==
    IF k.st # "up" THEN k
    ELSE IF m.t = 8 THEN [k EXCEPT !.st = "ending"]
    ELSE IF m.t # 2 \/ m.d = <<>> THEN k
    ELSE LET d == m.d
         IN CASE d[1][1] = Handshake /\ RLen(d) >= 2 ->
                    [k EXCEPT !.acks = @ + 1, !.hello = TRUE, !.due = IF k.hello THEN @ ELSE Append(@, Item("start"))]
              [] d[1][1] = CallFunction /\ ~k.hello -> [k EXCEPT !.early = TRUE]
              [] d[1][1] = CallFunction /\ k.hello ->
                    LET r == ReadCall(d)
                        fs == {f \in Functions : r.ok /\ f.name = r.name}
                    IN IF ~r.ok THEN k
                       ELSE IF r.open THEN [k EXCEPT !.rets = Append(@, May)]
                       ELSE IF fs = {} THEN [k EXCEPT !.rets = Append(@, Must)]
                       ELSE LET f == CHOOSE f \in fs : TRUE
                                x == Read(r.args, f.types)
                                answer == IF f.throws THEN Append(k.rets, May) ELSE k.rets
                            IN IF x.open THEN [k EXCEPT !.due = Append(@, [i |-> "may", f |-> f.name]), !.rets = Append(@, May)]
                               ELSE IF ~x.ok THEN [k EXCEPT !.rets = Append(@, May)]
                               ELSE IF x.rest # <<>> THEN [k EXCEPT !.due = Append(@, [i |-> "may", f |-> f.name]), !.rets = Append(@, May)]
                               ELSE [k EXCEPT !.due = Append(@, [i |-> "run", f |-> f.name, args |-> x.l]), !.rets = answer]
              [] OTHER -> k
Receive(c, ms) == Upd(c, FoldLeft(Receive1, cl[c], ms))
\* the application did not ask to be told that its UIs start
ReceiveUntold(c, ms) == LET k == FoldLeft(Receive1, cl[c], ms) IN Upd(c, [k EXCEPT !.due = SelectSeq(@, LAMBDA i : i.i # "start")])

\* the first items of a lane are optional up to the k-th
Reach(l, k) == \A j \in 1..(k - 1) : l[j].opt
Optional(i) == i.i = "may"
Next1(due, k) == \A j \in 1..(k - 1) : Optional(due[j])
Rest(l, k) == SubSeq(l, k + 1, Len(l))

Started(c) == /\ \E k \in 1..Len(cl[c].due) :
                     /\ cl[c].due[k].i = "start" /\ ("runs" \in Lax \/ Next1(cl[c].due, k)) = TRUE
                     /\ Upd(c, [cl[c] EXCEPT !.started = TRUE, !.due = IF "runs" \in Lax THEN <<>> ELSE Rest(@, k)])
Ran(c, f, args) ==
    IF "runs" \in Lax \/ cl[c].early THEN UNCHANGED cl
    ELSE \E k \in 1..Len(cl[c].due) :
            LET i == cl[c].due[k]
            IN /\ i.i # "start" /\ Next1(cl[c].due, k) /\ i.f = f
               /\ (i.i = "run" => SameParams(i.args, args)) = TRUE
               /\ Upd(c, [cl[c] EXCEPT !.due = Rest(@, k)])

---------------------------------------------------------------------------
(* What the application does *)
Entry(c, e) == Upd(c, [cl[c] EXCEPT !.app = Append(@, e)])
\* "yes", "no" or "open": a call can be represented by a message
Representable(name, args) == IF ~TextsFit([k |-> "s", r |-> name]) \/ (\E i \in 1..Len(args) : ~TextsFit(args[i])) THEN "no"
                             ELSE IF NodesOf(args) <= 254 THEN "yes" ELSE "open"
\* outcome of a request: ok or an error, fits: "yes", "no" or "open"
Asked(c, e, fits, ok) ==
    IF ok THEN /\ Present(c) /\ cl[c].started /\ fits # "no"
               /\ Entry(c, [e EXCEPT !.opt = cl[c].st # "up"])
    ELSE /\ (cl[c].st # "up" \/ fits # "yes") = TRUE
         /\ UNCHANGED cl
Call(c, name, args, ok) == Asked(c, [what |-> "call", opt |-> FALSE, name |-> name, args |-> args], Representable(name, args), ok)
Script(c, text, ok) == Asked(c, [what |-> "script", opt |-> FALSE, text |-> text], IF RLen(text) <= 65535 THEN "yes" ELSE "no", ok)

\* a line is emitted by the logging facility
Emit(d) == IF "logs" \in Lax THEN UNCHANGED cl
           ELSE cl' = [c \in Clients |-> IF Present(c) /\ cl[c].hello
                                         THEN [cl[c] EXCEPT !.log = Append(@, [d |-> RTake(d, 65535), opt |-> ~(cl[c].started /\ cl[c].st = "up")])]
                                         ELSE cl[c]]

---------------------------------------------------------------------------
(* What leaves for a client *)
SameRequest(e, r) == /\ e.what = r.what
                     /\ IF e.what = "call" THEN e.name = r.name /\ ("args" \in Lax \/ (r.count = 1 + Len(e.args) /\ SameList(e.args, r.args)))
                        ELSE "texts" \in Lax \/ e.text = r.text
\* possible states of a client after it was sent a message
After(k, m) ==
    LET r == ReadSent(m.d)
        via(lane, good) == {i \in 1..Len(lane) : Reach(lane, i) /\ good[i]}
    IN IF m.t # 2 THEN {k}
       ELSE IF r.what = "ack" THEN IF "acks" \in Lax THEN {[k EXCEPT !.acked = TRUE]}
                                   ELSE IF k.acks > 0 THEN {[k EXCEPT !.acks = @ - 1, !.acked = TRUE]} ELSE {}
       ELSE IF r.what = "return" /\ k.early THEN {k}
       ELSE IF ~k.acked /\ "acks" \notin Lax THEN {}
       ELSE CASE r.what = "log" -> IF "logs" \in Lax THEN {k}
                                   ELSE {[k EXCEPT !.log = Rest(@, i)] : i \in via(k.log, [i \in 1..Len(k.log) |-> "texts" \in Lax \/ k.log[i].d = r.text])}
              [] r.what = "return" -> IF "returns" \in Lax THEN {k}
                                      ELSE IF Len(r.values) # 1 THEN {}
                                      ELSE IF r.values[1].k # "e" THEN {}
                                      ELSE {[k EXCEPT !.rets = Rest(@, i)] : i \in via(k.rets, [i \in 1..Len(k.rets) |-> TRUE])}
              [] r.what \in {"call", "script"} -> {[k EXCEPT !.app = Rest(@, i)] : i \in via(k.app, [i \in 1..Len(k.app) |-> SameRequest(k.app[i], r)])}
              [] OTHER -> {}
SentAll(c, ms) == Present(c) /\ \E k \in FoldLeft(LAMBDA ks, m : UNION {After(k, m) : k \in ks}, {cl[c]}, ms) : Upd(c, k)
Sent(c, m) == SentAll(c, <<m>>)

---------------------------------------------------------------------------
(* Ends *)
\* the end of the peer was received, or its connection broke
Ends(c) == Upd(c, IF cl[c].st = "up" THEN [cl[c] EXCEPT !.st = "ending"] ELSE cl[c])
\* the server releases the socket: everything about the client is forgotten
Released(c) == cl[c].st = "ending" /\ (\A i \in 1..Len(cl[c].due) : Optional(cl[c].due[i]) \/ "runs" \in Lax) = TRUE /\ Upd(c, [NoClient EXCEPT !.st = "over"])

AllOpt(l) == \A i \in 1..Len(l) : l[i].opt
\* nothing remains to be done for a client
Settled(c) == LET k == cl[c]
              IN TRUE = (/\ k.st # "ending"
                         /\ \A i \in 1..Len(k.due) : Optional(k.due[i]) \/ ("runs" \in Lax /\ k.due[i].i = "run")
                         /\ k.acks = 0 \/ "acks" \in Lax
                         /\ AllOpt(k.rets) \/ "returns" \in Lax
                         /\ AllOpt(k.app) /\ AllOpt(k.log))
=============================================================================
