---------------------------- MODULE InteropTrace ----------------------------
(* Recorded runs of real applications and of the embedded client, executed in *)
(* a JavaScript engine, against Interop.                                      *)
EXTENDS TraceBase, FiniteSets, Bytes
Ids == 1..4
VARIABLE pg
vars == <<tid, pos, pg>>
T(t) == [t |-> t]
Fn(n, ts) == [name |-> n, types |-> ts]
Registered == {
    Fn(RleOf(<<110, 49>>), <<T("d")>>),
    Fn(RleOf(<<105, 49>>), <<T("i32")>>),
    Fn(RleOf(<<117, 56>>), <<T("u8")>>),
    Fn(RleOf(<<115, 49>>), <<T("s")>>),
    Fn(RleOf(<<98, 49>>), <<T("b")>>),
    Fn(RleOf(<<109, 105, 120>>), <<T("i32"), T("s"), T("b")>>),
    Fn(RleOf(<<110, 111, 110, 101>>), <<>>),
    Fn(RleOf(<<115, 105, 120>>), <<T("b"), T("b"), T("s"), T("d"), T("s"), T("b")>>),
    Fn(RleOf(<<116, 117, 112>>), <<[t |-> "t", l |-> <<T("d"), T("s")>>], T("b")>>),
    Fn(RleOf(<<98, 111, 111, 109>>), <<T("d")>>),
    Fn(RleOf(<<98, 111, 111, 109, 105, 110, 116>>), <<T("d")>>),
    Fn(RleOf(<<98, 97, 99, 107>>), <<T("s")>>),
    Fn(RleOf(<<116, 101, 108, 108>>), <<T("i32"), T("s")>>),
    Fn(RleOf(<<110, 101, 115, 116>>), <<[t |-> "t", l |-> <<[t |-> "t", l |-> <<T("s"), T("d")>>], T("s")>>]>>),
    Fn(RleOf(<<>>), <<T("s")>>),
    Fn(<<<<76, 300>>>>, <<T("d")>>)}
S == INSTANCE Interop WITH Pages <- Ids, Functions <- Registered
Init == TraceInit /\ S!InteropInit
Step == CASE E.o = "page" -> S!Opens(E.c)
          [] E.o = "started" -> S!Told(E.c)
          [] E.o = "linked" -> S!Linked(E.c)
          [] E.o = "def" -> S!Defines(E.c, E.f)
          [] E.o = "left" -> S!Leaves(E.c)
          [] E.o = "js" -> S!AppCalls(E.c, E.f, E.args, E.ok)
          [] E.o = "script" -> S!AppScripts(E.c, E.d, E.ok)
          [] E.o = "emit" -> S!AppLogs(E.d)
          [] E.o = "jsran" -> S!PageRan(E.c, E.f, E.args)
          [] E.o = "missed" -> S!PageMisses(E.c)
          [] E.o = "jsscript" -> S!PageScript(E.c, E.d)
          [] E.o = "jslog" -> S!PageLogs(E.c, E.d)
          [] E.o = "cpp" -> S!PageCalls(E.c, E.f, E.args, E.ok)
          [] E.o = "ran" -> S!AppRan(E.c, E.f, E.args)
          [] E.o = "q" -> (\A c \in Ids : S!Settled(c)) = TRUE /\ UNCHANGED pg
          [] OTHER -> FALSE
Next == Consume /\ Step /\ Report
Spec == Init /\ [][Next]_vars
=============================================================================
