------------------------------ MODULE Callables ------------------------------
(* Functions whose type is forgotten: [types, result] is known when one is     *)
(* stored, and required when it is called.                                     *)
EXTENDS Integers, Sequences
CONSTANTS Slots, Types
VARIABLES fn, run
NoFn == [st |-> "none", name |-> "", types |-> <<>>, result |-> ""]
\* run: what the call in progress must still do
Idle == [st |-> "idle"]
CallInit == fn = [k \in Slots |-> NoFn] /\ run = Idle
Store(k, name, types, result) == run = Idle /\ fn' = [fn EXCEPT ![k] = [st |-> "set", name |-> name, types |-> types, result |-> result]] /\ UNCHANGED run
Move(k, j) == run = Idle /\ fn' = [fn EXCEPT ![j] = fn[k], ![k] = NoFn] /\ UNCHANGED run
Forget(k) == run = Idle /\ fn' = [fn EXCEPT ![k] = NoFn] /\ UNCHANGED run
\* want: type of the expected result, "any" when it does not matter
Accepts(k, types, want) == fn[k].types = types /\ (want = "any" \/ want = fn[k].result)
Call(k, types, args, want) ==
    /\ run = Idle /\ fn[k].st = "set" /\ UNCHANGED fn
    /\ run' = IF Accepts(k, types, want) THEN [st |-> "must", name |-> fn[k].name, args |-> args, want |-> want, result |-> fn[k].result]
              ELSE [st |-> "refuse"]
\* the target runs and gives a value
\* left: what it leaves in the arguments it has by reference
Ran(name, args, value, left) == /\ run.st = "must" /\ run.name = name /\ run.args = args /\ UNCHANGED fn
                          /\ run' = [st |-> "ran", want |-> run.want, result |-> run.result, value |-> value, left |-> left]
Returned(value, left) == /\ run.st = "ran" /\ left = run.left /\ (run.want \notin {"any", "void"} => value = run.value) = TRUE /\ run' = Idle /\ UNCHANGED fn
Refused == run.st = "refuse" /\ run' = Idle /\ UNCHANGED fn
=============================================================================
