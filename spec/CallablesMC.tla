----------------------------- MODULE CallablesMC -----------------------------
(* Every stored signature called with every signature.                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Slots, Types, Results, MaxOps
VARIABLES fn, run, hist, ran
vars == <<fn, run, hist, ran>>
C == INSTANCE Callables
Sigs == {<<>>} \cup {<<t>> : t \in Types} \cup {<<t, u>> : t \in Types, u \in Types}
Args(ts) == [i \in 1..Len(ts) |-> <<ts[i], i>>]
Init == C!CallInit /\ hist = <<>> /\ ran = <<>>
Note(o) == Len(hist) < MaxOps /\ hist' = Append(hist, o)
Next == \/ \E k \in Slots, ts \in Sigs, r \in Results : fn[k].st = "none" /\ C!Store(k, "f", ts, r) /\ Note(<<"store", k, ts, r>>) /\ UNCHANGED ran
        \/ \E k \in Slots, j \in Slots : k # j /\ fn[k].st = "set" /\ C!Move(k, j) /\ Note(<<"move", k, j>>) /\ UNCHANGED ran
        \/ \E k \in Slots, ts \in Sigs, w \in Results \cup {"any"} : C!Call(k, ts, Args(ts), w) /\ Note(<<"call", k, ts, w>>) /\ ran' = <<>>
        \/ run.st = "must" /\ C!Ran(run.name, run.args, "v", <<>>) /\ ran' = Append(ran, run.args) /\ UNCHANGED hist
        \/ run.st = "ran" /\ C!Returned("v", <<>>) /\ UNCHANGED <<hist, ran>>
        \/ C!Refused /\ UNCHANGED <<hist, ran>>
Spec == Init /\ [][Next]_vars
\* a call ran its target once with the given arguments, or was refused
LastCall == hist[Len(hist)]
OnceOrRefused == (run.st = "idle" /\ hist # <<>> /\ LastCall[1] = "call") =>
                    IF fn[LastCall[2]].types = LastCall[3] /\ LastCall[4] \in {"any", fn[LastCall[2]].result} THEN ran = <<Args(LastCall[3])>> ELSE ran = <<>>
EmitFinal == (IOEnv.MODE = "gen" /\ Len(hist) = MaxOps /\ run = C!Idle) => PrintT(ToJson([ops |-> hist]))
View == <<fn, run, ran, IF hist = <<>> THEN hist ELSE LastCall, Len(hist)>>
=============================================================================
