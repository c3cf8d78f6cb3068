------------------------------ MODULE InteropMC ------------------------------
(* The protocol between the embedded client and the server: WebSocket         *)
(* messages, handshake and acknowledgement, with the messages encoded as in   *)
(* Messages. It implements Interop.                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Pages, MaxUp, MaxDown, MaxLogs, MaxOpen, MaxOps, Emit, Gone

VARIABLES page,   \* state of the embedded clients: "away", "shaking", "linked", "left"
          told, toServer, toPage, defined,
          ups, downs, lines, opens, hist,
          pg        \* the state of Interop: Bar
vars == <<page, told, toServer, toPage, defined, ups, downs, lines, opens, hist, pg>>
cvars == <<page, told, toServer, toPage, defined, ups, downs, lines, opens, hist>>

B == INSTANCE Bytes
M == INSTANCE Messages
Name1 == B!RleOf(<<110, 49>>)     \* n1, of a number
Echo == B!RleOf(<<101>>)
D == << <<0, 0, 0, 0, 0, 0, 240, 63>>, <<0, 0, 0, 0, 0, 0, 0, 64>>, <<0, 0, 0, 0, 0, 0, 8, 64>>, <<0, 0, 0, 0, 0, 0, 16, 64>> >>
Args(i) == <<[k |-> "n", n |-> D[i]]>>
Wrong == <<[k |-> "s", r |-> <<<<122, 300>>>>]>>
Both(i) == <<[k |-> "t", l |-> <<[k |-> "s", r |-> <<<<i, 2>>>>], [k |-> "b", v |-> i % 2]>>], [k |-> "n", n |-> D[i]]>>
Text(i) == B!RleOf(<<60 + i, 60>>)
Line(i) == B!RleOf(<<90, i>>)
Fns == {[name |-> Name1, types |-> <<[t |-> "d"]>>]}

Init0 == /\ page = [c \in Pages |-> "away"] /\ told = [c \in Pages |-> FALSE]
        /\ toServer = [c \in Pages |-> <<>>] /\ toPage = [c \in Pages |-> <<>>] /\ defined = [c \in Pages |-> {}]
        /\ ups = 0 /\ downs = 0 /\ lines = 0 /\ opens = 0 /\ hist = <<>>
Put(v, c, x) == [v EXCEPT ![c] = x]
Note(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
More == ~Emit \/ Len(hist) < MaxOps

Opens(c) == /\ More /\ opens < MaxOpen /\ (page[c] = "away" \/ (page[c] = "left" /\ toServer[c] = <<>> /\ ~told[c]))
            /\ page' = Put(page, c, "shaking") /\ toServer' = Put(toServer, c, <<B!RleOf(<<0, 0>>)>>) /\ toPage' = Put(toPage, c, <<>>)
            /\ defined' = Put(defined, c, {}) /\ opens' = opens + 1 /\ Note(<<"page", c>>) /\ UNCHANGED <<told, ups, downs, lines>>
Leaves(c) == /\ Gone /\ More /\ page[c] = "linked" /\ page' = Put(page, c, "left") /\ Note(<<"leave", c>>) /\ UNCHANGED <<told, toServer, toPage, defined, ups, downs, lines, opens>>
Defines(c) == /\ More /\ page[c] = "linked" /\ Echo \notin defined[c] /\ defined' = Put(defined, c, {Echo}) /\ Note(<<"def", c>>) /\ UNCHANGED <<page, told, toServer, toPage, ups, downs, lines, opens>>
Calls(c, kind) == /\ More /\ page[c] = "linked" /\ ups < MaxUp /\ ups' = ups + 1
                  /\ toServer' = Put(toServer, c, Append(toServer[c], CASE kind = "good" -> M!CallMessage(Name1, Args(ups + 1))
                                                                        [] kind = "unknown" -> M!CallMessage(Echo, Args(1))
                                                                        [] OTHER -> M!CallMessage(Name1, Wrong)))
                  /\ Note(<<"cpp", c, kind, ups + 1>>) /\ UNCHANGED <<page, told, toPage, defined, downs, lines, opens>>
\* the client handles what it received; a call may make it call
Handles(c) == /\ page[c] \in {"shaking", "linked"} /\ toPage[c] # <<>>
              /\ toPage' = Put(toPage, c, Tail(toPage[c]))
              /\ page' = IF M!ReadSent(Head(toPage[c])).what = "ack" THEN Put(page, c, "linked") ELSE page
              /\ UNCHANGED <<told, toServer, defined, ups, downs, lines, opens, hist>>
\* the server handles what it received
Receives(c) == /\ toServer[c] # <<>>
               /\ toServer' = Put(toServer, c, Tail(toServer[c]))
               /\ IF Head(toServer[c]) = B!RleOf(<<0, 0>>) THEN toPage' = Put(toPage, c, Append(toPage[c], B!RleOf(<<1, 0>>))) /\ told' = Put(told, c, TRUE)
                  ELSE UNCHANGED <<told, toPage>>
               /\ UNCHANGED <<page, defined, ups, downs, lines, opens, hist>>
Sends(c, m, x) == /\ More /\ told[c] /\ downs < MaxDown /\ downs' = downs + 1 /\ toPage' = Put(toPage, c, Append(toPage[c], m))
                  /\ Note(x) /\ UNCHANGED <<page, told, toServer, defined, ups, lines, opens>>
AppCalls(c) == Sends(c, M!CallMessage(Echo, Both(downs + 1)), <<"js", c, downs + 1>>)
AppScripts(c) == Sends(c, M!TextMessage(1, Text(downs + 1)), <<"script", c, downs + 1>>)
AppLogs == /\ More /\ lines < MaxLogs /\ lines' = lines + 1
           /\ toPage' = [c \in Pages |-> IF told[c] THEN Append(toPage[c], M!TextMessage(0, Line(lines + 1))) ELSE toPage[c]]
           /\ Note(<<"log", lines + 1>>) /\ UNCHANGED <<page, told, toServer, defined, ups, downs, opens>>
\* the server notices that a page has left
Releases(c) == /\ page[c] = "left" /\ toServer[c] = <<>> /\ told[c] /\ told' = Put(told, c, FALSE) /\ toPage' = Put(toPage, c, <<>>)
               /\ UNCHANGED <<page, toServer, defined, ups, downs, lines, opens, hist>>
Crossing == /\ Emit /\ More /\ Len(hist) % 3 = 1 /\ Note(<<"hold">>) /\ UNCHANGED <<page, told, toServer, toPage, defined, ups, downs, lines, opens>>
Settles == /\ Emit /\ More /\ Len(hist) % 4 = 3 /\ Note(<<"settle">>) /\ UNCHANGED <<page, told, toServer, toPage, defined, ups, downs, lines, opens>>
Next0 == \/ \E c \in Pages : Opens(c) \/ Leaves(c) \/ Defines(c) \/ Calls(c, "good") \/ Calls(c, "unknown") \/ Calls(c, "wrong") \/ Handles(c) \/ Receives(c) \/ AppCalls(c) \/ AppScripts(c) \/ Releases(c)
        \/ AppLogs \/ Crossing \/ Settles
EmitFinal == (Emit /\ Len(hist) = MaxOps) => PrintT(ToJson(hist))

---------------------------------------------------------------------------
(* Refinement: what is on its way is what Interop says remains to be done *)
S == INSTANCE Interop WITH Functions <- Fns
Sel(l, whats) == SelectSeq([i \in 1..Len(l) |-> M!ReadSent(l[i])], LAMBDA r : r.what \in whats)
Asked(m) == IF m = B!RleOf(<<0, 0>>) THEN <<>> ELSE LET r == M!ReadCall(m) IN S!Expected(r.name, M!DecodeAll(r.args).l)
BarOf(pp, tt, ss, qq, dd) ==
       [c \in Pages |->
           LET now == pp[c] # "away" /\ ~(pp[c] = "left" /\ ~tt[c])
               down == Sel(qq[c], {"call", "script"})
               log == Sel(qq[c], {"log"})
           IN [st |-> IF pp[c] \in {"shaking", "linked"} THEN "open" ELSE pp[c],
               told |-> tt[c] \/ (pp[c] = "left"), linked |-> pp[c] \in {"linked", "left"},
               defs |-> dd[c],
               down |-> [i \in 1..Len(down) |-> IF down[i].what = "call" THEN [what |-> "call", name |-> down[i].name, args |-> down[i].args]
                                                ELSE [what |-> "script", text |-> down[i].text]],
               log |-> [i \in 1..Len(log) |-> log[i].text],
               up |-> FoldLeft(LAMBDA a, m : a \o Asked(m), <<>>, ss[c])]]
Init == Init0 /\ pg = BarOf(page, told, toServer, toPage, defined)
Next == Next0 /\ pg' = (IF Emit THEN pg ELSE BarOf(page', told', toServer', toPage', defined'))
Spec == Init /\ [][Next]_vars /\ \A c \in Pages : WF_cvars(Handles(c)) /\ WF_cvars(Receives(c)) /\ WF_cvars(Releases(c))
Abstractly(c) ==
    \/ Opens(c) /\ S!Opens(c)
    \/ Leaves(c) /\ S!Leaves(c)
    \/ Releases(c) /\ S!Lost(c)
    \/ Defines(c) /\ S!Defines(c, Echo)
    \/ Calls(c, "good") /\ S!PageCalls(c, Name1, Args(ups + 1), TRUE)
    \/ Calls(c, "unknown") /\ S!PageCalls(c, Echo, Args(1), TRUE)
    \/ Calls(c, "wrong") /\ S!PageCalls(c, Name1, Wrong, TRUE)
    \/ AppCalls(c) /\ S!AppCalls(c, Echo, Both(downs + 1), TRUE)
    \/ AppScripts(c) /\ S!AppScripts(c, Text(downs + 1), TRUE)
    \/ /\ Handles(c)
       /\ LET r == M!ReadSent(Head(toPage[c]))
          IN CASE r.what = "ack" -> S!Linked(c)
               [] r.what = "call" -> IF r.name \in defined[c] THEN S!PageRan(c, r.name, r.args) ELSE S!PageMisses(c)
               [] r.what = "script" -> S!PageScript(c, r.text)
               [] r.what = "log" -> S!PageLogs(c, r.text)
               [] OTHER -> FALSE
    \/ /\ Receives(c)
       /\ LET m == Head(toServer[c])
          IN IF m = B!RleOf(<<0, 0>>) THEN S!Told(c)
             ELSE LET r == M!ReadCall(m) x == M!DecodeAll(r.args).l
                  IN IF S!Expected(r.name, x) = <<>> THEN UNCHANGED pg ELSE S!AppRan(c, r.name, x)
Refines == S!InteropInit /\ [][(\E c \in Pages : Abstractly(c)) \/ (AppLogs /\ S!AppLogs(Line(lines + 1)))]_vars
Linked == \A c \in Pages : (page[c] = "shaking") ~> (page[c] # "shaking")
Done == \A c \in Pages : (page[c] # "away") ~> (page[c] = "left" \/ S!Settled(c))
Ordered == \A c \in Pages : page[c] = "shaking" /\ toPage[c] # <<>> => M!ReadSent(toPage[c][1]).what = "ack"
=============================================================================
