----------------------------- MODULE WebSocket -----------------------------
(* A server's WebSockets, from their opening to their end: what their peers   *)
(* and the application may do, and what the library then does.                *)
EXTENDS WsFrame

CONSTANT Socks

VARIABLE ws
wvars == <<ws>>

(* app : "none", "open", "stopped" or "destroyed" by the application
   rx  : decoder of what was received      due: completed messages the application has not been told yet
   tx  : bytes which have to leave         peer: "up", "fin" (won't send anymore), "rst"
   end : an end was met (of the stream, or an error)       told: the application was notified of the end
   open: the socket is not released                                                                         *)
Unused == [app |-> "none", rx |-> Decoder, due |-> <<>>, tx |-> <<>>, peer |-> "up", end |-> FALSE, told |-> FALSE, open |-> FALSE]
WInit == ws = [c \in Socks |-> Unused]
Upd(c, r) == ws' = [ws EXCEPT ![c] = r]

Alive(c) == ws[c].app = "open" /\ ~ws[c].told
PeerClosed(c) == ws[c].due # <<>> /\ ws[c].due[1].t = CloseOp
MustTell(c) == Alive(c) /\ (PeerClosed(c) \/ (ws[c].due = <<>> /\ (ws[c].end \/ ws[c].peer = "rst")))

Open(c) == ws[c].app = "none" /\ Upd(c, [Unused EXCEPT !.app = "open", !.open = TRUE])
\* the peer
PeerEnds(c) == ws[c].peer = "up" /\ Upd(c, [ws[c] EXCEPT !.peer = "fin"])
PeerBreaks(c) == ws[c].peer # "rst" /\ Upd(c, [ws[c] EXCEPT !.peer = "rst"])
\* the library receives d
Read(c, d) == LET x == Feed(ws[c].rx, d)
              IN Upd(c, [ws[c] EXCEPT !.rx = [x EXCEPT !.out = <<>>], !.due = IF Alive(c) /\ ws[c].open THEN @ \o x.out ELSE <<>>])
ReadEnd(c) == ws[c].peer = "fin" /\ Upd(c, [ws[c] EXCEPT !.end = TRUE])
\* ... tells the application
Message(c, t, d) == /\ Alive(c)
                    /\ ws[c].due # <<>> /\ ws[c].due[1] = [t |-> t, d |-> d]
                    /\ Upd(c, [ws[c] EXCEPT !.due = Tail(@)])
Tell(c) == /\ MustTell(c) \/ (ws[c].app = "stopped" /\ ~ws[c].told)
           /\ Upd(c, [ws[c] EXCEPT !.told = TRUE, !.due = <<>>, !.tx = <<>>])
\* the application sends a message: op, payload
Send(c, op, d) == Upd(c, [ws[c] EXCEPT !.tx = IF Alive(c) THEN RCat(@, ServerFrame(op, d)) ELSE @])
Stop(c) == ws[c].app = "open" /\ Upd(c, [ws[c] EXCEPT !.app = "stopped", !.due = <<>>, !.tx = <<>>])
Destroy(c) == ws[c].app \in {"open", "stopped"} /\ Upd(c, [ws[c] EXCEPT !.app = "destroyed", !.due = <<>>, !.tx = <<>>])
\* d leaves
Out(c, d) == /\ Alive(c)
             /\ RIsPrefix(d, ws[c].tx)
             /\ Upd(c, [ws[c] EXCEPT !.tx = RDrop(@, RLen(d))])
\* the socket is released
Released(c) == ws[c].open /\ (~Alive(c) \/ MustTell(c)) /\ Upd(c, [ws[c] EXCEPT !.open = FALSE])

\* what is true when the library has done all it can for now; pending: it has a write in progress
Settled(c, pending) ==
    /\ Alive(c) => ws[c].due = <<>> /\ ~MustTell(c)                \* told everything
    /\ (Alive(c) /\ ws[c].peer # "rst") => (pending = (ws[c].tx # <<>>))   \* sending what remains
    /\ (ws[c].app # "none" /\ ~Alive(c)) => ~ws[c].open            \* released
=============================================================================
