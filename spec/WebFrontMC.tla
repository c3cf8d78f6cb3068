----------------------------- MODULE WebFrontMC -----------------------------
(* Browser clients which send messages of every kind, call and are called,    *)
(* come and go at any moment, with a model of the server's duties. Also       *)
(* produces schedules which are played against real applications.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Clients, Kinds, MaxRecv, MaxApp, MaxLogs, MaxConn, MaxOps, Emit, Faults

VARIABLES cl, rcvd, calls, ran, asked, sent, lines, conns, hist, starts
vars == <<cl, rcvd, calls, ran, asked, sent, lines, conns, hist, starts>>

B == INSTANCE Bytes
f == B!RleOf(<<102>>)
g == B!RleOf(<<103>>)
S == INSTANCE WebFront WITH Functions <- {[name |-> f, types |-> <<[t |-> "i8"]>>, throws |-> FALSE], [name |-> g, types |-> <<[t |-> "d"]>>, throws |-> TRUE]}, Lax <- {}
D == << <<0, 0, 0, 0, 0, 0, 240, 63>>, <<0, 0, 0, 0, 0, 0, 0, 64>>, <<0, 0, 0, 0, 0, 0, 8, 64>>, <<0, 0, 0, 0, 0, 0, 16, 64>>, <<0, 0, 0, 0, 0, 0, 20, 64>>, <<0, 0, 0, 0, 0, 0, 24, 64>>, <<0, 0, 0, 0, 0, 0, 28, 64>> >>
Num(i) == [k |-> "n", n |-> D[i]]
Txt(i) == [k |-> "s", r |-> <<<<i, 1>>>>]
Bin(d) == [t |-> 2, d |-> d]
Too == [k |-> "s", r |-> <<<<122, 4>>>>]
\* the i-th message of a client
MessageOf(kind, i) ==
    CASE kind = "hs" -> Bin(B!RleOf(<<0, 1>>))
      [] kind = "run" -> Bin(S!CallMessage(f, <<Num(i)>>))
      [] kind = "boom" -> Bin(S!CallMessage(g, <<Num(i)>>))
      [] kind = "unknown" -> Bin(S!CallMessage(B!RleOf(<<104>>), <<Num(i)>>))
      [] kind = "misfit" -> Bin(S!CallMessage(f, <<Too>>))
      [] kind = "missing" -> Bin(S!CallMessage(f, <<>>))
      [] kind = "broken" -> Bin(B!RTake(S!CallMessage(f, <<Num(i)>>), 15))
      [] kind = "junk" -> Bin(B!RleOf(<<9, 9, 9>>))
      [] kind = "text" -> [t |-> 1, d |-> B!RleOf(<<104, 105>>)]
      [] OTHER -> [t |-> 8, d |-> <<>>]

Zeros(x) == [c \in Clients |-> x]
Init == /\ S!FrontInit /\ rcvd = Zeros(0) /\ calls = Zeros(<<>>) /\ ran = Zeros(<<>>) /\ asked = Zeros(<<>>) /\ sent = Zeros(<<>>)
        /\ lines = 0 /\ conns = Zeros(0) /\ hist = <<>> /\ starts = Zeros(0)
Note(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
Seldom == Len(hist) % 7 = 6
More == ~Emit \/ Len(hist) < MaxOps
Put(v, c, x) == [v EXCEPT ![c] = Append(@, x)]
Asks == FoldFunction(LAMBDA l, a : a + Len(l), 0, asked)

Conn(c) == /\ More /\ conns[c] < MaxConn /\ S!Connect(c)
           /\ conns' = [conns EXCEPT ![c] = @ + 1] /\ rcvd' = [rcvd EXCEPT ![c] = 0] /\ calls' = [calls EXCEPT ![c] = <<>>] /\ ran' = [ran EXCEPT ![c] = <<>>]
           /\ asked' = [asked EXCEPT ![c] = <<>>] /\ sent' = [sent EXCEPT ![c] = <<>>] /\ starts' = [starts EXCEPT ![c] = 0]
           /\ Note(<<"conn", c>>) /\ UNCHANGED lines
Recv(c, kind) == /\ More /\ cl[c].st = "up" /\ rcvd[c] < MaxRecv
                 /\ cl[c].hello \/ kind \in {"hs", "text", "close"}
                 /\ Emit /\ kind = "close" => Seldom
                 /\ S!Receive(c, <<MessageOf(kind, rcvd[c] + 1)>>)
                 /\ rcvd' = [rcvd EXCEPT ![c] = @ + 1]
                 /\ calls' = IF kind \in {"run", "boom"} /\ cl[c].hello THEN Put(calls, c, rcvd[c] + 1) ELSE calls
                 /\ Note(<<"recv", c, kind, rcvd[c] + 1>>) /\ UNCHANGED <<ran, asked, sent, lines, conns, starts>>
\* the application calls or injects, through a new object or the one it has
Name(c) == B!RleOf(<<64 + c>>)
TextOf(c, i) == B!RleOf(<<c, i>>)
Asks1(c, what) == /\ More /\ cl[c].started /\ Asks < MaxApp
                  /\ LET i == Len(asked[c]) + 1
                     IN IF what = "script" THEN S!Script(c, TextOf(c, i), TRUE) ELSE S!Call(c, Name(c), <<Txt(i)>>, TRUE)
                  /\ asked' = Put(asked, c, what)
                  /\ Note(<<what, c>>) /\ UNCHANGED <<rcvd, calls, ran, sent, lines, conns, starts>>
\* what the lost ones are asked is refused
Refused(c) == /\ Emit /\ More /\ conns[c] > 0 /\ Seldom /\ cl[c].st = "over" /\ S!Call(c, Name(c), <<Num(1)>>, FALSE)
              /\ Note(<<"late", c>>) /\ UNCHANGED <<rcvd, calls, ran, asked, sent, lines, conns, starts>>
Emits == /\ More /\ lines < MaxLogs /\ S!Emit(B!RleOf(<<99, lines + 1>>)) /\ lines' = lines + 1
         /\ Note(<<"log", lines + 1>>) /\ UNCHANGED <<rcvd, calls, ran, asked, sent, conns, starts>>
Breaks(c, how) == /\ More /\ (Emit => Seldom) /\ how \in Faults /\ cl[c].st = "up" /\ S!Ends(c)
                  /\ Note(<<how, c>>) /\ UNCHANGED <<rcvd, calls, ran, asked, sent, lines, conns, starts>>
Flush(c) == Emit /\ More /\ cl[c].st = "up" /\ Note(<<"flush", c>>) /\ UNCHANGED <<cl, rcvd, calls, ran, asked, sent, lines, conns, starts>>

\* what the server does
Starts(c) == S!Started(c) /\ starts' = [starts EXCEPT ![c] = @ + 1] /\ UNCHANGED <<rcvd, calls, ran, asked, sent, lines, conns, hist>>
Runs(c) == /\ cl[c].due # <<>>
           /\ \E i \in 1..MaxRecv : S!Ran(c, IF cl[c].due[1].i = "start" THEN f ELSE cl[c].due[1].f, <<Num(i)>>) /\ ran' = Put(ran, c, i)
           /\ UNCHANGED <<rcvd, calls, asked, sent, lines, conns, hist, starts>>
Exc == B!RCat(B!RleOf(<<4, 1, 0, 0, 4, 0, 0, 0>>), S!Encode([k |-> "e", r |-> <<<<33, 1>>>>]))
Sends(c, what, m) == S!Sent(c, Bin(m)) /\ sent' = Put(sent, c, what) /\ UNCHANGED <<rcvd, calls, ran, asked, lines, conns, hist, starts>>
Acks(c) == cl[c].acks > 0 /\ Sends(c, <<"ack">>, B!RleOf(<<1, 0>>))
Answers(c) == cl[c].rets # <<>> /\ Sends(c, <<"ret">>, Exc)
Passes(c) == cl[c].app # <<>> /\ \E i \in 1..Len(asked[c]) :
                Sends(c, <<"app", c, i>>, IF asked[c][i] = "script" THEN S!TextMessage(1, TextOf(c, i)) ELSE S!CallMessage(Name(c), <<Txt(i)>>))
Prints(c) == cl[c].log # <<>> /\ \E i \in 1..lines : Sends(c, <<"log", i>>, S!TextMessage(0, B!RleOf(<<99, i>>)))
Releases(c) == S!Released(c) /\ UNCHANGED <<rcvd, calls, ran, asked, sent, lines, conns, hist, starts>>

Serve(c) == Starts(c) \/ Runs(c) \/ Acks(c) \/ Answers(c) \/ Passes(c) \/ Prints(c) \/ Releases(c)
Urgent == \E c \in Clients : Serve(c)
Lazy == \E c \in Clients : \/ Conn(c) \/ (\E k \in Kinds : Recv(c, k)) \/ Asks1(c, "script") \/ Asks1(c, "call") \/ Refused(c)
                           \/ Breaks(c, "fin") \/ Breaks(c, "reset") \/ Flush(c)
Next == IF Emit /\ ENABLED Urgent THEN Urgent ELSE Urgent \/ Lazy \/ Emits
Spec == Init /\ [][Next]_vars /\ \A c \in Clients : WF_vars(Starts(c)) /\ WF_vars(Runs(c)) /\ WF_vars(Acks(c)) /\ WF_vars(Answers(c)) /\ WF_vars(Passes(c)) /\ WF_vars(Prints(c)) /\ WF_vars(Releases(c))

EmitFinal == (Emit /\ Len(hist) = MaxOps /\ ~ENABLED Urgent) => PrintT(ToJson(hist))

---------------------------------------------------------------------------
Present(c) == cl[c].st # "over" /\ ~cl[c].early
Of(c, w) == SelectSeq(sent[c], LAMBDA x : x[1] = w)
\* nothing before an acknowledgement, which answers a handshake
AckFirst == \A c \in Clients : Present(c) /\ sent[c] # <<>> => (sent[c][1] = <<"ack">> /\ (cl[c].hello \/ cl[c].st = "over"))
\* what is sent through the UI of a client goes to it, in order, once
Private == \A c \in Clients : LET l == Of(c, "app")
                              IN /\ \A i \in 1..Len(l) : l[i][2] = c
                                 /\ \A i \in 1..(Len(l) - 1) : l[i][3] < l[i + 1][3]
                                 /\ (cl[c].st = "up" => \A i \in 1..Len(l) : l[i][3] = i)
LogsOnce == \A c \in Clients : LET l == Of(c, "log") IN \A i \in 1..(Len(l) - 1) : l[i][2] < l[i + 1][2]
\* the calls are run once and in order
RanOnce == \A c \in Clients : Present(c) =>
                              /\ IsPrefix(ran[c], calls[c])
                              /\ (cl[c].st = "up" /\ cl[c].due = <<>>) => ran[c] = calls[c]
StartsOnce == \A c \in Clients : starts[c] <= 1 /\ (cl[c].st = "up" => (starts[c] = 1 <=> cl[c].started))
\* nothing happens for a lost client
Silence == [][\A c \in Clients : cl[c].st \in {"none", "over"} /\ cl'[c].st = cl[c].st => sent'[c] = sent[c] /\ ran'[c] = ran[c] /\ starts'[c] = starts[c]]_vars
\* every duty is done
Serves == \A c \in Clients : (cl[c].st # "none" /\ ~S!Settled(c)) ~> (S!Settled(c) \/ cl[c].st = "over")
Answered == \A c \in Clients : (cl[c].st = "up" /\ cl[c].acks > 0) ~> (cl[c].acks = 0)
=============================================================================
