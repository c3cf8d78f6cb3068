---------------------------- MODULE HttpServerMC ----------------------------
(* A few connections with two-piece requests and two-piece answers, served by *)
(* a model of the server loop: every interleaving of the clients, the network *)
(* and the server. Also produces the schedules which are played against the   *)
(* real server.                                                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Clients, Kinds, MaxOps, MaxFaults, Emit

\* requests are <<kind, 1>>, <<kind, 2>>; a "bad" one is recognised at its first piece
RequestOf(k) == <<<<k, 1>>, <<k, 2>>>>
KindOf(p) == p[1][1]
MayAnswer(p) == p # <<>> /\ (KindOf(p) = "bad" \/ Len(p) = 2)
Answer(c, p) == <<<<c, KindOf(p), 1>>, <<c, KindOf(p), 2>>>>
AllowedHere(c, p, o) == IsPrefix(o, Answer(c, p))
WholeHere(c, p, o) == MayAnswer(p) /\ o = Answer(c, p)
UpgradesHere(c, p, o) == WholeHere(c, p, o) /\ KindOf(p) = "up"

VARIABLES conn,
          kind,    \* request of each client
          unsent,  \* pieces which the client did not send yet
          pipe,    \* pieces sent, not read
          w,       \* pieces of the answer which did not leave
          hist
vars == <<conn, kind, unsent, pipe, w, hist>>

H == INSTANCE HttpServer WITH Conns <- Clients, Nothing <- <<>>, Cat <- LAMBDA a, b : a \o b, Start <- <<>>, Feed <- LAMBDA p, d : p \o d,
        May <- MayAnswer, Must <- MayAnswer
Whole(c) == WholeHere(c, conn[c].p, conn[c].out)

Init == /\ H!HInit
        /\ kind \in [Clients -> Kinds]
        /\ unsent = [c \in Clients |-> RequestOf(kind[c])]
        /\ pipe = [c \in Clients |-> <<>>]
        /\ w = [c \in Clients |-> <<>>]
        /\ hist = <<>>

Note(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
More == Len(hist) < MaxOps
Faults == Len(SelectSeq(hist, LAMBDA x : x[1] \in {"fin", "reset", "acceptfail"}))
CanFail == More /\ Faults < MaxFaults

\* --- clients and network
Connect(c) == More /\ H!Accept(c) /\ Note(<<"conn", c>>) /\ UNCHANGED <<kind, unsent, pipe, w>>
AcceptFails == /\ CanFail /\ \A i \in 1..Len(hist) : hist[i][1] # "acceptfail"
               /\ Emit /\ Note(<<"acceptfail", 0>>) /\ UNCHANGED <<conn, kind, unsent, pipe, w>>
Push(c) == /\ More /\ conn[c].ph # "none" /\ conn[c].peer = "up" /\ unsent[c] # <<>>
           /\ pipe' = [pipe EXCEPT ![c] = Append(@, unsent[c][1])]
           /\ unsent' = [unsent EXCEPT ![c] = Tail(@)]
           /\ Note(<<"push", c>>) /\ UNCHANGED <<conn, kind, w>>
PeerEnds(c) == CanFail /\ conn[c].ph # "none" /\ H!Fin(c) /\ Note(<<"fin", c>>) /\ UNCHANGED <<kind, unsent, pipe, w>>
PeerBreaks(c) == /\ CanFail /\ conn[c].ph # "none" /\ H!Reset(c) /\ Note(<<"reset", c>>) /\ UNCHANGED <<kind, unsent, pipe>>
                 /\ w' = [w EXCEPT ![c] = <<>>]

\* --- server
Reads(c, n) == /\ More /\ conn[c].ph = "open" /\ conn[c].peer # "rst" /\ w[c] = <<>> /\ ~conn[c].pend /\ conn[c].out = <<>> /\ n \in 1..Len(pipe[c])
               /\ H!Read(c, SubSeq(pipe[c], 1, n))
               /\ pipe' = [pipe EXCEPT ![c] = SubSeq(@, n + 1, Len(@))]
               /\ w' = IF MayAnswer(conn'[c].p) THEN [w EXCEPT ![c] = Answer(c, conn'[c].p)] ELSE w
               /\ Note(<<"take", c, n = Len(pipe[c])>>) /\ UNCHANGED <<kind, unsent>>
Starts(c) == conn[c].ph = "open" /\ w[c] # <<>> /\ ~conn[c].pend /\ H!Pend(c, TRUE) /\ UNCHANGED <<kind, unsent, pipe, w, hist>>
Writes(c, n) == /\ More /\ conn[c].pend /\ conn[c].peer # "rst" /\ n \in 1..Len(w[c])
                /\ H!Out(c, SubSeq(w[c], 1, n), AllowedHere(c, conn[c].p, conn[c].out \o SubSeq(w[c], 1, n)))
                /\ w' = [w EXCEPT ![c] = SubSeq(@, n + 1, Len(@))]
                /\ Note(<<"flush", c, n = Len(w[c])>>) /\ UNCHANGED <<kind, unsent, pipe>>
Written(c) == conn[c].pend /\ w[c] = <<>> /\ H!Pend(c, FALSE) /\ UNCHANGED <<kind, unsent, pipe, w, hist>>
Ends(c) == /\ ~conn[c].pend /\ conn[c].out # <<>> /\ conn[c].ph = "open"
           /\ IF KindOf(conn[c].p) = "up" /\ ~(conn[c].peer = "rst" /\ w[c] # <<>>) THEN H!HandOver(c, UpgradesHere(c, conn[c].p, conn[c].out)) ELSE H!Close(c, Whole(c))
           /\ UNCHANGED <<kind, unsent, pipe, w, hist>>
MeetsEnd(c) == /\ conn[c].ph = "open" /\ conn[c].peer = "fin" /\ pipe[c] = <<>> /\ w[c] = <<>> /\ ~conn[c].pend /\ conn[c].out = <<>> /\ ~conn[c].late
               /\ H!ReadEnd(c) /\ UNCHANGED <<kind, unsent, pipe, w, hist>>
Gives(c) == conn[c].ph = "open" /\ (conn[c].peer = "rst" \/ conn[c].late) /\ H!Close(c, Whole(c)) /\ UNCHANGED <<kind, unsent, pipe, w, hist>>

Urgent(c) == Starts(c) \/ Written(c) \/ Ends(c) \/ MeetsEnd(c) \/ Gives(c)
Lazy == \/ \E c \in Clients : Connect(c) \/ Push(c) \/ PeerEnds(c) \/ PeerBreaks(c) \/ \E n \in 1..2 : Reads(c, n) \/ Writes(c, n)
        \/ AcceptFails
\* schedules are played one operation at a time: what the server has to do at once comes first
Next == IF Emit /\ \E c \in Clients : ENABLED Urgent(c) THEN \E c \in Clients : Urgent(c)
        ELSE \/ Lazy
             \/ \E c \in Clients : ~Emit /\ Urgent(c)

Fair == \A c \in Clients : WF_vars(Urgent(c)) /\ WF_vars(\E n \in 1..2 : Reads(c, n)) /\ WF_vars(\E n \in 1..2 : Writes(c, n))
Spec == Init /\ [][Next]_vars /\ Fair

\* a schedule is complete when nothing remains possible, or when it is long enough
EmitFinal == (Emit /\ hist # <<>> /\ ~(\E c \in Clients : ENABLED Urgent(c)) /\ (Len(hist) = MaxOps \/ ~ENABLED Lazy)) => PrintT(ToJson([kind |-> [c \in Clients |-> kind[c]], ops |-> hist]))

---------------------------------------------------------------------------
\* what a client receives was produced for it and for its request
NoMix == \A c \in Clients : \A i \in 1..Len(conn[c].out) : conn[c].out[i][1] = c /\ conn[c].out[i][2] = kind[c]
\* the answer is whole when the connection ends, unless the client has gone
Complete == \A c \in Clients : conn[c].ph \in {"closed", "up"} => WholeHere(c, conn[c].p, conn[c].out) \/ H!Lost(c)
\* handed over only after a whole positive answer
HandedOver == \A c \in Clients : conn[c].ph = "up" => UpgradesHere(c, conn[c].p, conn[c].out)
\* nothing left to do: nothing is owed to anybody and the connections of lost clients are released
Settles == (~\E c \in Clients : ENABLED Urgent(c)) => H!Quiet
\* every client which sent its request or left is eventually released
Eventually == \A c \in Clients : (conn[c].ph = "open" /\ (unsent[c] = <<>> \/ conn[c].peer # "up")) ~> (conn[c].ph \in {"closed", "up"})
=============================================================================
