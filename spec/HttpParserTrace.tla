-------------------------- MODULE HttpParserTrace --------------------------
(* Recorded runs of the real request parser, several heads being parsed at   *)
(* a time, against the recogniser.                                           *)
(*  "grammar": the verdict and the reported request are those of the grammar *)
(*  "cuts"   : they are those obtained for the same head alone and in one    *)
(*             piece, and for well formed heads they come with the last byte *)
EXTENDS TraceBase, HttpParser

VARIABLES ps,    \* recogniser of each parser
          fed,   \* bytes given to each parser
          said,  \* last verdict of each parser
          solo,  \* outcome of each head parsed alone: [d, r, req]
          req    \* requests reported by each parser
vars == <<tid, pos, ps, fed, said, solo, req>>

Init == TraceInit /\ ps = <<>> /\ fed = <<>> /\ said = <<>> /\ solo = <<>> /\ req = <<>>

Reported(e) == [method |-> e.m, target |-> e.u, major |-> e.a, minor |-> e.b, fields |-> e.h]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

(* method names which the library knows *)
Known == {B("CONNECT"), B("DELETE"), B("GET"), B("HEAD"), B("OPTIONS"), B("PATCH"), B("POST"), B("PUT"), B("TRACE")}
SameRequest(q, r) == /\ q.target = r.target /\ q.major = r.major /\ q.minor = r.minor /\ q.fields = r.fields
                     /\ r.method \in Known => q.method = r.method
                     /\ r.method \notin Known => q.method \notin Known

\* the verdict r may be given after some bytes led to the state p
Agrees(p, r) == CASE Verdict(p) = "done" -> r = "done"
                  [] Verdict(p) = "more" -> r = "more"
                  [] Verdict(p) = "bad" -> r = "bad" \/ (r = "more" /\ p.end < 4)   \* may be rejected later, not after its end

Feed == /\ E.o = "feed"
        /\ LET p == Run(At(ps, E.i, Start), E.d)
               all == At(fed, E.i, <<>>) \o E.d
           IN /\ ps' = Put(ps, E.i, p)
              /\ fed' = Put(fed, E.i, all)
              /\ CASE Aspect = "grammar" -> Agrees(p, E.r)
                   [] Aspect = "cuts" -> (Verdict(Run(Start, solo[E.i].d)) = "done") => Agrees(p, E.r)
              /\ (At(said, E.i, "more") # "more") => E.r = said[E.i]
        /\ said' = Put(said, E.i, E.r)
        /\ UNCHANGED <<solo, req>>
Req == /\ E.o = "req"
       /\ said[E.i] = "done"
       /\ CASE Aspect = "grammar" -> SameRequest(Reported(E), Result(ps[E.i]))
            [] Aspect = "cuts" -> TRUE   \* compared at the end
       /\ req' = Put(req, E.i, Reported(E))
       /\ UNCHANGED <<ps, fed, said, solo>>
Solo == /\ E.o = "solo"
        /\ solo' = Put(solo, E.i, [d |-> E.d, r |-> E.r, req |-> <<>>])
        /\ UNCHANGED <<ps, fed, said, req>>
SoloReq == /\ E.o = "soloreq"
           /\ solo' = [solo EXCEPT ![E.i].req = Reported(E)]
           /\ UNCHANGED <<ps, fed, said, req>>
\* all the bytes of the head have been given (or the parser has decided before)
End == /\ E.o = "end"
       /\ Aspect = "cuts" => /\ said[E.i] = solo[E.i].r
                             /\ said[E.i] = "done" => req[E.i] = solo[E.i].req
       /\ UNCHANGED <<ps, fed, said, solo, req>>
Lookup == /\ \/ E.o = "get" /\ E.r = Take(ValuesOf(ps[E.i].fs, E.n), 1)
             \/ E.o = "all" /\ E.r = ValuesOf(ps[E.i].fs, E.n)
             \/ E.o = "has" /\ E.r = FieldContains(ps[E.i].fs, E.n, E.x)
          /\ UNCHANGED <<ps, fed, said, solo, req>>

Next == Consume /\ (Feed \/ Req \/ Solo \/ SoloReq \/ End \/ Lookup) /\ Report
Spec == Init /\ [][Next]_vars
============================================================================
