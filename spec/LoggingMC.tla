------------------------------ MODULE LoggingMC ------------------------------
(* All the short histories of levels, sinks and messages.                     *)
EXTENDS HexText, TLC, Json, IOUtils
CONSTANTS MaxSinks, MaxOps
VARIABLES on, up, due, sent, got, hist
vars == <<on, up, due, sent, got, hist>>
Sks == 1..MaxSinks
L == INSTANCE Logging WITH Sinks <- Sks
Init == L!LogInit /\ sent = [k \in Sks |-> <<>>] /\ got = [k \in Sks |-> <<>>] /\ hist = <<>>
Note(o) == Len(hist) < MaxOps /\ hist' = Append(hist, o) /\ UNCHANGED got
Line(l, n) == [l |-> l, text |-> <<97 + n>>, file |-> <<102>>, at |-> n]
Text(x) == <<91, L!Letter(x.l), 93>> \o B(" | ") \o x.text
Asks == /\ L!Quiet
        /\ \/ \E l \in 0..4 : L!SetLevel(l) /\ Note(<<"level", l>>) /\ UNCHANGED sent
           \/ \E l \in 1..4, b \in BOOLEAN : L!Set(l, b) /\ Note(<<"set", l, b>>) /\ UNCHANGED sent
           \/ \E k \in Sks \ up : L!Add({k}) /\ Note(<<"add", k>>) /\ UNCHANGED sent
           \/ \E k \in up : L!Leave({k}) /\ Note(<<"remove", k>>) /\ UNCHANGED sent
           \/ \E l \in 1..4 : L!Log(l, <<Line(l, Len(hist))>>) /\ Note(<<"log", l>>)
                              /\ sent' = [k \in Sks |-> IF k \in up /\ l \in on THEN Append(sent[k], Len(hist)) ELSE sent[k]]
Gives == /\ ~L!Quiet
         /\ \E k \in Sks : due[k] # <<>> /\ LET x == due[k][1] IN
                /\ L!Receive(k, IF x.l = 4 THEN <<91, 68, 93, 102>> \o Dec(x.at) \o B(" | ") \o x.text ELSE Text(x))
                /\ got' = [got EXCEPT ![k] = Append(@, x.at)]
         /\ UNCHANGED <<sent, hist>>
Next == Asks \/ Gives
Spec == Init /\ [][Next]_vars
Each == \A k \in Sks : got[k] = SubSeq(sent[k], 1, Len(got[k])) /\ (due[k] = <<>> => got[k] = sent[k])
OnlyUp == \A k \in Sks : due[k] # <<>> => k \in up
View == <<on, up, due, sent, got, Len(hist)>>
EmitFinal == (IOEnv.MODE = "gen" /\ Len(hist) = MaxOps /\ L!Quiet) => PrintT(ToJson([ops |-> hist]))
=============================================================================
