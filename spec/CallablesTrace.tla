--------------------------- MODULE CallablesTrace ---------------------------
(* Recorded uses of the real type-erased functions against Callables.         *)
EXTENDS TraceBase
VARIABLES fn, run
vars == <<tid, pos, fn, run>>
C == INSTANCE Callables WITH Slots <- 1..9, Types <- {}
Init == TraceInit /\ C!CallInit
Deal == CASE E.o = "store" -> C!Store(E.k, E.f, E.types, E.r)
          [] E.o = "move" -> C!Move(E.k, E.j)
          [] E.o = "forget" -> C!Forget(E.k)
          [] E.o = "call" -> C!Call(E.k, E.types, E.args, E.want)
          [] E.o = "ran" -> C!Ran(E.f, E.args, E.v, E.left)
          [] E.o = "returned" -> C!Returned(E.v, E.left)
          [] E.o = "refused" -> C!Refused
          [] E.o = "q" -> run = C!Idle /\ UNCHANGED <<fn, run>>
          [] OTHER -> FALSE
Next == Consume /\ Deal /\ Report
Spec == Init /\ [][Next]_vars
=============================================================================
