---------------------------- MODULE WebSocketMC ----------------------------
(* A WebSocket in the scaled format with a model of the library's loops, the  *)
(* peer sending a script of frames cut anywhere, the application sending      *)
(* messages at any moment, and every kind of end. Also produces schedules     *)
(* which are played, in the real format, against the real code.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Scripts, MaxSends, MaxOps, Emit, Cuts, Faults

VARIABLES ws, script, wire, taken, queue, left, got, out, sent, calls, hist
vars == <<ws, script, wire, taken, queue, left, got, out, sent, calls, hist>>

FMT == [c16 |-> 2, c64 |-> 3, lim16 |-> 3, n16 |-> 1, n64 |-> 2, nkey |-> 2]
S == INSTANCE WebSocket WITH Socks <- {1}, F <- FMT
R(s) == S!RleOf(s)

\* frames of the scripts: f(in), o(p), k(ey), n: payload size, c: length code (0: the shortest)
Fr(fin, op, key, n, wide) == [fin |-> fin, op |-> op, key |-> key, n |-> n, wide |-> wide]
K == <<5, 9>>
\* single messages of all the length classes, masked or not, wide codes
Catalog == << << Fr(TRUE, 1, K, 0, 0), Fr(TRUE, 2, K, 1, 0), Fr(TRUE, 1, <<>>, 3, 0) >>,
              << Fr(TRUE, 2, K, 2, 0), Fr(TRUE, 2, <<>>, 1, 2), Fr(TRUE, 1, K, 1, 3) >>,
              << Fr(FALSE, 1, K, 1, 0), Fr(TRUE, 9, K, 1, 0), Fr(FALSE, 0, K, 0, 0), Fr(TRUE, 0, K, 2, 0), Fr(TRUE, 2, K, 1, 0) >>,
              << Fr(FALSE, 2, <<>>, 0, 0), Fr(TRUE, 10, <<>>, 0, 0), Fr(TRUE, 0, K, 1, 0) >>,
              << Fr(TRUE, 1, K, 1, 0), Fr(TRUE, 8, K, 0, 0), Fr(TRUE, 1, K, 1, 0) >>,
              << Fr(FALSE, 1, K, 3, 0), Fr(TRUE, 8, <<>>, 2, 0), Fr(TRUE, 0, K, 1, 0) >> >>
Payload(i, n) == [j \in 1..n |-> 10 * i + j]
AsFrame(i, f) == [fin |-> f.fin, op |-> f.op, key |-> f.key, d |-> R(Payload(i, f.n)), code |-> IF f.wide = 0 THEN S!LengthCode(f.n) ELSE f.wide]
Size(f) == 2 + S!ExtSize(IF f.wide = 0 THEN S!LengthCode(f.n) ELSE f.wide) + Len(f.key) + f.n
WireOf(s) == S!Expand(S!RConcat([i \in 1..Len(s) |-> S!Wire(AsFrame(i, s[i]))]))
\* the frames which end within the n first bytes
SumTo(s, k) == FoldLeft(LAMBDA a, f : a + Size(f), 0, SubSeq(s, 1, k))
FramesIn(s, n) == Cardinality({k \in 1..Len(s) : SumTo(s, k) <= n})
\* the messages which k frames make, by definition
RECURSIVE Messages(_, _)
Messages(s, k) ==
    IF k = 0 THEN <<>>
    ELSE LET f == s[k] before == Messages(s, k - 1)
             start == CHOOSE j \in 1..k : /\ s[j].op \in {1, 2} /\ \A i \in (j + 1)..k : s[i].op \notin {1, 2}
             parts == SelectSeq([i \in 1..k |-> i], LAMBDA i : i >= start /\ s[i].op < 8)
         IN IF f.op >= 8 \/ ~f.fin THEN before
            ELSE Append(before, [t |-> s[start].op, d |-> FoldLeft(LAMBDA a, i : a \o Payload(i, s[i].n), <<>>, parts)])
\* a close frame ends everything
Until8(s) == IF \E i \in 1..Len(s) : s[i].op = 8 THEN CHOOSE i \in 1..Len(s) : s[i].op = 8 /\ \A j \in 1..(i - 1) : s[j].op # 8 ELSE Len(s) + 1
Deliverable == LET k == FramesIn(script, taken) IN Messages(script, IF k < Until8(script) THEN k ELSE Until8(script) - 1)

SendSizes == <<1, 3>>
SentFrames(n) == S!Expand(S!RConcat([i \in 1..n |-> S!ServerFrame(2, R(Payload(20 + i, SendSizes[i])))]))

Init == /\ S!WInit
        /\ script \in {Catalog[i] : i \in Scripts}
        /\ wire = WireOf(script)
        /\ taken = 0 /\ queue = <<>> /\ left = <<>> /\ got = <<>> /\ out = <<>> /\ sent = 0 /\ calls = <<>> /\ hist = <<>>

Note(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
More == ~Emit \/ Len(hist) < MaxOps
W == ws[1]

Start == S!Open(1) /\ UNCHANGED <<script, wire, taken, queue, left, got, out, sent, calls, hist>>
Takes(n) == /\ More /\ S!Alive(1) /\ W.open /\ W.due = <<>> /\ W.peer # "rst" /\ taken + n <= Len(wire)
            /\ S!Read(1, R(SubSeq(wire, taken + 1, taken + n)))
            /\ taken' = taken + n /\ Note(<<"recv", n>>) /\ UNCHANGED <<script, wire, queue, left, got, out, sent, calls>>
Sends == /\ More /\ W.app = "open" /\ sent < MaxSends
         /\ S!Send(1, 2, R(Payload(21 + sent, SendSizes[sent + 1])))
         /\ sent' = sent + 1
         /\ queue' = IF S!Alive(1) THEN Append(queue, S!Expand(S!ServerFrame(2, R(Payload(21 + sent, SendSizes[sent + 1]))))) ELSE queue
         /\ Note(<<"send", sent + 1>>) /\ UNCHANGED <<script, wire, taken, left, got, out, calls>>
Leaves(n) == /\ More /\ S!Alive(1) /\ W.peer # "rst" /\ n <= Len(left)
             /\ S!Out(1, R(SubSeq(left, 1, n)))
             /\ out' = out \o SubSeq(left, 1, n)
             /\ left' = SubSeq(left, n + 1, Len(left))
             /\ Note(<<"flush", n, n = Len(left)>>) /\ UNCHANGED <<script, wire, taken, queue, got, sent, calls>>
Fault(a, name) == /\ More /\ name \in Faults /\ a /\ Note(<<name>>) /\ UNCHANGED <<script, wire, taken, got, out, sent, calls>>
Ends == Fault(S!PeerEnds(1) /\ UNCHANGED <<queue, left>>, "fin")
Breaks == Fault(W.app = "open" /\ S!PeerBreaks(1) /\ UNCHANGED <<queue, left>>, "reset")
Stops == Fault(S!Stop(1) /\ queue' = <<>> /\ left' = <<>>, "stop")
Destroys == Fault(S!Destroy(1) /\ queue' = <<>> /\ left' = <<>>, "destroy")

\* what the library does at once
Delivers == /\ S!Alive(1) /\ W.due # <<>> /\ W.due[1].t # 8
            /\ S!Message(1, W.due[1].t, W.due[1].d)
            /\ got' = Append(got, W.due[1]) /\ UNCHANGED <<script, wire, taken, queue, left, out, sent, calls, hist>>
Writes == /\ S!Alive(1) /\ queue # <<>> /\ left = <<>>
          /\ left' = queue[1] /\ queue' = Tail(queue) /\ UNCHANGED <<ws, script, wire, taken, got, out, sent, calls, hist>>
MeetsEnd == /\ S!Alive(1) /\ W.peer = "fin" /\ taken = Len(wire) /\ ~W.end
            /\ S!ReadEnd(1) /\ UNCHANGED <<script, wire, taken, queue, left, got, out, sent, calls, hist>>
Tells == /\ S!Alive(1) /\ S!MustTell(1) /\ S!Tell(1)
         /\ calls' = Append(calls, Len(got)) /\ queue' = <<>> /\ left' = <<>> /\ UNCHANGED <<script, wire, taken, got, out, sent, hist>>
Releases == W.open /\ S!Released(1) /\ UNCHANGED <<script, wire, taken, queue, left, got, out, sent, calls, hist>>

Urgent == Start \/ Delivers \/ Writes \/ MeetsEnd \/ Tells \/ Releases
Lazy == \/ \E n \in Cuts : Takes(n) \/ Leaves(n)
        \/ Sends \/ Ends \/ Breaks \/ Stops \/ Destroys
Next == IF Emit /\ ENABLED Urgent THEN Urgent ELSE Urgent \/ Lazy
Spec == Init /\ [][Next]_vars /\ WF_vars(Urgent) /\ WF_vars(\E n \in Cuts : Takes(n)) /\ WF_vars(\E n \in Cuts : Leaves(n))

EmitFinal == (Emit /\ hist # <<>> /\ ~ENABLED Urgent /\ (Len(hist) = MaxOps \/ ~ENABLED Lazy)) =>
    PrintT(ToJson([script |-> script, ops |-> hist]))

---------------------------------------------------------------------------
Plain(m) == [t |-> m.t, d |-> S!Expand(m.d)]
\* what was delivered are the first messages of those received, all of them once nothing is left to do
Delivered == /\ IsPrefix([i \in 1..Len(got) |-> Plain(got[i])], Deliverable)
             /\ (S!Alive(1) /\ W.due = <<>>) => Len(got) = Len(Deliverable)
\* what left are the first bytes of the sent messages
SentInOrder == IsPrefix(out, SentFrames(sent)) /\ ((S!Alive(1) /\ queue = <<>> /\ left = <<>>) => out = SentFrames(sent))
\* one notification at most, after the last message
ToldOnce == Len(calls) <= 1 /\ (calls # <<>> => calls[1] = Len(got))
\* idle: the specification's own idea of what remains
Idle == ~ENABLED Urgent => S!Settled(1, left # <<>>)
\* the end of the peer is notified, all that was sent leaves
Ending == (S!Alive(1) /\ (W.peer = "rst" \/ W.peer = "fin")) ~> (W.told \/ W.app # "open")
Leaving == (S!Alive(1) /\ left # <<>>) ~> (left = <<>> \/ W.peer = "rst")
=============================================================================
