---------------------------- MODULE WebFrontTrace ----------------------------
(* Recorded runs of a real application against WebFront. ASPECT:              *)
(*  hostile (C12), link (C13), calls (C14), js (C15), text (C16), lost (C17)  *)
EXTENDS TraceBase, FiniteSets, Bytes

Ids == 1..9
VARIABLES cl,
          rx, tx,   \* decoding of what is received from the clients and sent to them
          odd,      \* clients whose bytes are arbitrary
          mute,     \* the application has no handler for the start of UIs
          seen,     \* answers to the requests
          fed       \* bytes received from odd clients
vars == <<tid, pos, cl, rx, tx, odd, seen, fed, mute>>
rest == <<odd, seen, fed, mute>>

T(t) == [t |-> t]
Fn(n, ts, th) == [name |-> n, types |-> ts, throws |-> th]
Registered == {
    Fn(RleOf(<<110, 49>>), <<T("d")>>, FALSE),
    Fn(RleOf(<<105, 49>>), <<T("i32")>>, FALSE),
    Fn(RleOf(<<117, 56>>), <<T("u8")>>, FALSE),
    Fn(RleOf(<<115, 49>>), <<T("s")>>, FALSE),
    Fn(RleOf(<<98, 49>>), <<T("b")>>, FALSE),
    Fn(RleOf(<<109, 105, 120>>), <<T("i32"), T("s"), T("b")>>, FALSE),
    Fn(RleOf(<<110, 111, 110, 101>>), <<>>, FALSE),
    Fn(RleOf(<<115, 105, 120>>), <<T("b"), T("b"), T("s"), T("d"), T("s"), T("b")>>, FALSE),
    Fn(RleOf(<<116, 117, 112>>), <<[t |-> "t", l |-> <<T("d"), T("s")>>], T("b")>>, FALSE),
    Fn(RleOf(<<98, 111, 111, 109>>), <<T("d")>>, TRUE),
    Fn(RleOf(<<98, 111, 111, 109, 105, 110, 116>>), <<T("d")>>, TRUE),
    Fn(RleOf(<<98, 97, 99, 107>>), <<T("s")>>, FALSE),
    Fn(RleOf(<<116, 101, 108, 108>>), <<T("i32"), T("s")>>, FALSE),
    Fn(RleOf(<<>>), <<T("s")>>, FALSE),
    Fn(<<<<76, 300>>>>, <<T("d")>>, FALSE)}
AllLax == {"args", "texts", "logs", "returns", "runs", "acks"}
Lax == CASE Aspect = "hostile" -> {}
         [] Aspect = "link" -> AllLax \ {"acks"}
         [] Aspect = "calls" -> AllLax \ {"returns", "runs"}
         [] Aspect = "js" -> AllLax \ {"args"}
         [] Aspect = "text" -> AllLax \ {"texts", "logs"}
         [] OTHER -> AllLax \ {"logs"}

FMT == [c16 |-> 126, c64 |-> 127, lim16 |-> 65536, n16 |-> 2, n64 |-> 8, nkey |-> 4]
W == INSTANCE WsFrame WITH F <- FMT
S == INSTANCE WebFront WITH Clients <- Ids, Functions <- Registered

Init == /\ TraceInit /\ S!FrontInit
        /\ rx = [c \in Ids |-> W!Decoder] /\ tx = [c \in Ids |-> W!Decoder]
        /\ odd = {} /\ seen = <<>> /\ fed = 0 /\ mute = FALSE

Odd == E.c \in odd
Conn == /\ E.o = "conn" /\ E.c \in Ids
        /\ rx' = [rx EXCEPT ![E.c] = W!Decoder] /\ tx' = [tx EXCEPT ![E.c] = W!Decoder]
        /\ IF E.h THEN odd' = odd \cup {E.c} /\ UNCHANGED cl
           ELSE odd' = odd \ {E.c} /\ E.ok /\ S!Connect(E.c)
        /\ UNCHANGED <<seen, fed, mute>>
ReadOdd == E.o = "readh" /\ Odd /\ fed' = fed + E.n /\ UNCHANGED <<cl, rx, tx, odd, seen, mute>>
ReadSome == /\ E.o = "read" /\ ~Odd
        /\ LET x == W!Feed(rx[E.c], E.d)
           IN rx' = [rx EXCEPT ![E.c] = [x EXCEPT !.out = <<>>]] /\ (IF mute THEN S!ReceiveUntold(E.c, x.out) ELSE S!Receive(E.c, x.out))
        /\ UNCHANGED <<tx, rest>>
Out == /\ E.o = "out" /\ ~Odd
       /\ LET x == W!Feed(tx[E.c], E.d)
          IN tx' = [tx EXCEPT ![E.c] = [x EXCEPT !.out = <<>>]] /\ S!SentAll(E.c, x.out)
       /\ UNCHANGED <<rx, rest>>
Simple == /\ CASE E.o = "started" -> E.c \in Ids /\ (IF Odd THEN UNCHANGED cl ELSE S!Started(E.c))
                [] E.o = "ran" -> E.c \in Ids /\ (IF Odd THEN UNCHANGED cl ELSE S!Ran(E.c, E.f, E.args))
                [] E.o = "js" -> IF Odd THEN UNCHANGED cl ELSE S!Call(E.c, E.f, E.args, E.ok)
                [] E.o = "script" -> IF Odd THEN UNCHANGED cl ELSE S!Script(E.c, E.d, E.ok)
                [] E.o = "emit" -> S!Emit(E.d)
                [] E.o = "fin" -> UNCHANGED cl
                [] E.o \in {"readend", "reset"} -> IF Odd THEN UNCHANGED cl ELSE S!Ends(E.c)
                [] E.o = "released" -> IF Odd THEN UNCHANGED cl ELSE S!Released(E.c)
                [] E.o = "growth" -> E.left = 0 /\ E.bytes <= 16 * E.n + 256 /\ UNCHANGED cl
                [] E.o = "q" -> /\ \A c \in Ids : S!Settled(c)
                                /\ (Aspect = "hostile" => E.big <= 1048576 + 64 * fed) = TRUE
                                /\ UNCHANGED cl
                [] OTHER -> FALSE
          /\ UNCHANGED <<rx, tx, rest>>
Got == /\ E.o = "got" /\ ~E.open
       /\ (\A i \in 1..Len(seen) : seen[i].k = E.k => seen[i].d = E.d) = TRUE
       /\ seen' = IF \E i \in 1..Len(seen) : seen[i].k = E.k THEN seen ELSE Append(seen, [k |-> E.k, d |-> E.d])
       /\ UNCHANGED <<cl, rx, tx, odd, fed, mute>>

Mute == E.o = "mute" /\ mute' = TRUE /\ UNCHANGED <<cl, rx, tx, odd, seen, fed>>

Next == Consume /\ (Mute \/ Conn \/ ReadOdd \/ ReadSome \/ Out \/ Simple \/ Got) /\ Report
Spec == Init /\ [][Next]_vars
=============================================================================
