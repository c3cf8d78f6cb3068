----------------------------- MODULE HttpServer -----------------------------
(* The life of the connections of an HTTP server: what clients may do, and    *)
(* what the server then does, seen from the outside of its sockets. Requests  *)
(* and responses are parameters: exhaustive configurations use tiny ones, the *)
(* trace specification uses real bytes.                                       *)
EXTENDS Integers, Sequences

CONSTANTS Conns,
          Nothing, Cat(_, _),     \* byte strings
          Start, Feed(_, _),      \* recogniser of requests
          May(_), Must(_)         \* (recogniser) it may, it must be answered

VARIABLE conn   \* state of each connection
hvars == <<conn>>

\* ph: "none", "open", "up" (handed over), "closed" ; peer: "up", "fin", "rst" ; late: the server met the end of the peer before a request
Fresh == [ph |-> "none", p |-> Start, out |-> Nothing, pend |-> FALSE, eof |-> FALSE, peer |-> "up", late |-> FALSE]

HInit == conn = [c \in Conns |-> Fresh]

Decided(c) == Must(conn[c].p)
Answering(c) == conn[c].pend \/ conn[c].out # Nothing
Lost(c) == conn[c].peer = "rst" \/ conn[c].late

Upd(c, r) == conn' = [conn EXCEPT ![c] = r]

\* --- the client and the network
Accept(c) == conn[c].ph = "none" /\ Upd(c, [Fresh EXCEPT !.ph = "open"])
Fin(c) == conn[c].peer = "up" /\ Upd(c, [conn[c] EXCEPT !.peer = "fin"])
Reset(c) == conn[c].peer # "rst" /\ Upd(c, [conn[c] EXCEPT !.peer = "rst"])

\* --- the server
\* receives d
Read(c, d) == /\ conn[c].ph = "open"
              /\ Upd(c, [conn[c] EXCEPT !.p = Feed(@, d)])
\* meets the end of the stream
ReadEnd(c) == conn[c].peer = "fin" /\ Upd(c, [conn[c] EXCEPT !.late = (@ \/ ~Decided(c))])
\* has bytes to send (n) or none anymore: it cannot have some before the request is recognised
Pend(c, n) == /\ conn[c].ph = "open"
              /\ n => May(conn[c].p)
              /\ Upd(c, [conn[c] EXCEPT !.pend = n])
\* d leaves for the client (allowed: what left so far followed by d may be the beginning of its answer)
Out(c, d, allowed) == /\ conn[c].ph = "open" /\ ~conn[c].eof
                      /\ May(conn[c].p)
                      /\ allowed
                      /\ Upd(c, [conn[c] EXCEPT !.out = Cat(@, d)])
\* nothing else will leave: the answer is whole unless the client is lost
Eof(c, whole) == /\ conn[c].ph = "open" /\ ~conn[c].eof
                 /\ (whole \/ Lost(c))
                 /\ Upd(c, [conn[c] EXCEPT !.eof = TRUE])
\* the socket is released
Close(c, whole) == /\ conn[c].ph = "open"
                   /\ (conn[c].eof \/ whole \/ Lost(c))
                   /\ Upd(c, [conn[c] EXCEPT !.ph = "closed", !.eof = TRUE, !.pend = FALSE])
\* the socket is handed over: its owner will meet the end of a client which was lost since its answer left
HandOver(c, upgrades) == /\ conn[c].ph = "open" /\ ~conn[c].eof
                         /\ upgrades
                         /\ Upd(c, [conn[c] EXCEPT !.ph = "up", !.pend = FALSE])

\* --- what is true when the server has done all it can for now
\* it answers iff the request is recognised
Answers(c) == conn[c].ph = "open" => (Decided(c) /\ conn[c].peer # "rst" => Answering(c))
\* a connection remains only if its client is there and is owed something
Released(c) == conn[c].ph = "open" => /\ conn[c].peer # "rst"
                                      /\ ~conn[c].late
                                      /\ ~(May(conn[c].p) /\ Answering(c) /\ ~conn[c].pend)
Quiet == \A c \in Conns : Answers(c) /\ Released(c)
=============================================================================
