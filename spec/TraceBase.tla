----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications. TRACES names a JSON file: a      *)
(* sequence of recorded runs [id |-> .., ev |-> sequence of events]. A run   *)
(* is accepted when some behaviour of the specification explains all its     *)
(* events; its number is then printed.                                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
\* part of the specification which is to be checked
Aspect == IOEnv.ASPECT
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tid, pos
Events == Traces[tid].ev
E == Events[pos]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1
Consume == /\ pos <= Len(Events)
           /\ pos' = pos + 1
           /\ UNCHANGED tid
Report == /\ IF Verbose THEN PrintT(<<"AT", Traces[tid].id, pos>>) ELSE TRUE
          /\ IF pos = Len(Events) THEN PrintT(<<"ACCEPT", Traces[tid].id>>) ELSE TRUE
Has(e, f) == f \in DOMAIN e
============================================================================
