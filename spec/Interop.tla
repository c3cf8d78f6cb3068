------------------------------- MODULE Interop -------------------------------
(* What a server application and the pages which run the embedded client do   *)
(* for each other, whatever the messages in between are: calls of each side   *)
(* run the named function of the other one, once, in order, with equal        *)
(* arguments; scripts are executed and log lines are printed with their exact *)
(* text.                                                                      *)
(*                                                                            *)
(* State of a page:                                                           *)
(*   st      : "away", "open" or "left" (its end may not be known yet)        *)
(*   told    : the application was told that its UI has started               *)
(*   linked  : the page knows that it is linked                               *)
(*   defs    : names of the functions of the page                             *)
(*   down    : calls and scripts of the application for the page              *)
(*   log     : log lines for the page                                         *)
(*   up      : calls of the page                                              *)
EXTENDS Messages

CONSTANTS Pages,
          Functions   \* functions of the application: [name, types]
VARIABLE pg

Away == [st |-> "away", told |-> FALSE, linked |-> FALSE, defs |-> {}, down |-> <<>>, log |-> <<>>, up |-> <<>>]
InteropInit == pg = [c \in Pages |-> Away]
Set(c, r) == pg' = [pg EXCEPT ![c] = r]
After(l, k) == SubSeq(l, k + 1, Len(l))

Opens(c) == pg[c].st # "open" /\ Set(c, [Away EXCEPT !.st = "open"])
Told(c) == pg[c].st = "open" /\ ~pg[c].told /\ Set(c, [pg[c] EXCEPT !.told = TRUE])
Linked(c) == pg[c].st = "open" /\ ~pg[c].linked /\ Set(c, [pg[c] EXCEPT !.linked = TRUE])
Defines(c, name) == pg[c].st = "open" /\ Set(c, [pg[c] EXCEPT !.defs = @ \cup {name}])
\* what is on its way when a page leaves may be lost
Lost(c) == pg[c].st = "left" /\ Set(c, [pg[c] EXCEPT !.down = <<>>, !.log = <<>>, !.up = <<>>])
Leaves(c) == pg[c].st = "open" /\ Set(c, [pg[c] EXCEPT !.st = "left"])

---------------------------------------------------------------------------
(* The application asks. What a message cannot hold is refused. *)
Holds(name, args) == RLen(name) <= 65535 /\ \A i \in 1..Len(args) : TextsFit(args[i])
AppCalls(c, name, args, ok) ==
    IF ok THEN pg[c].told /\ Holds(name, args) /\ Set(c, [pg[c] EXCEPT !.down = Append(@, [what |-> "call", name |-> name, args |-> args])])
    ELSE (pg[c].st # "open" \/ ~Holds(name, args) \/ NodesOf(args) > 254) = TRUE /\ UNCHANGED pg
AppScripts(c, text, ok) ==
    IF ok THEN pg[c].told /\ RLen(text) <= 65535 /\ Set(c, [pg[c] EXCEPT !.down = Append(@, [what |-> "script", text |-> text])])
    ELSE (pg[c].st # "open" \/ RLen(text) > 65535) = TRUE /\ UNCHANGED pg
\* pages whose UI has not started yet, and those which leave, may get it or not
AppLogs(text) == \E early \in SUBSET {c \in Pages : pg[c].st = "left" \/ (pg[c].st = "open" /\ ~pg[c].told)} :
                    pg' = [c \in Pages |-> IF c \in early \/ (pg[c].st = "open" /\ pg[c].told)
                                          THEN [pg[c] EXCEPT !.log = Append(@, RTake(text, 65535))] ELSE pg[c]]

(* The page does what remains, in order *)
Serves(c, Good(_)) == /\ pg[c].st = "open" /\ pg[c].down # <<>>
                      /\ Good(Head(pg[c].down))
                      /\ Set(c, [pg[c] EXCEPT !.down = Tail(@)])
PageRan(c, name, args) == /\ name \in pg[c].defs
                          /\ Serves(c, LAMBDA i : (IF i.what = "call" THEN i.name = name /\ SameList(i.args, args) ELSE FALSE))
\* calls of functions which the page does not have run nothing
PageMisses(c) == Serves(c, LAMBDA i : (IF i.what = "call" THEN i.name \notin pg[c].defs ELSE FALSE))
PageScript(c, text) == Serves(c, LAMBDA i : (IF i.what = "script" THEN i.text = text ELSE FALSE))
PageLogs(c, text) == /\ pg[c].st = "open"
                     /\ pg[c].log # <<>> /\ pg[c].log[1] = text
                     /\ Set(c, [pg[c] EXCEPT !.log = Tail(@)])

---------------------------------------------------------------------------
(* The page asks *)
RECURSIVE Supported(_)
Supported(v) == v.k \in {"b", "n", "s"} \/ (IF v.k = "t" THEN \A i \in 1..Len(v.l) : Supported(v.l[i]) ELSE FALSE)
\* a call of the page : its effect on the application, what an unspecified conversion gives is free
Expected(name, args) ==
    LET fs == {f \in Functions : f.name = name}
    IN IF fs = {} THEN <<>>
       ELSE LET f == CHOOSE f \in fs : TRUE
                n == Len(f.types)
                free == Len(args) > n \/ \E i \in 1..Len(args) : i <= n /\ Unspecified(args[i], f.types[i])
                xs == IF Len(args) = n /\ ~free THEN [i \in 1..n |-> Convert(args[i], f.types[i])] ELSE <<>>
            IN IF free THEN <<[name |-> name, free |-> TRUE]>>
               ELSE IF Len(args) < n \/ (\E i \in 1..Len(xs) : ~xs[i].ok) THEN <<>>
               ELSE <<[name |-> name, free |-> FALSE, args |-> [i \in 1..n |-> xs[i].v]]>>
PageCalls(c, name, args, ok) ==
    /\ pg[c].st = "open"
    /\ IF ok THEN /\ pg[c].linked /\ Holds(name, args) /\ \A i \in 1..Len(args) : Supported(args[i])
                  /\ Set(c, [pg[c] EXCEPT !.up = @ \o Expected(name, args)])
       ELSE (~Holds(name, args) \/ (\E i \in 1..Len(args) : ~Supported(args[i]))) = TRUE /\ UNCHANGED pg
AppRan(c, name, args) == /\ pg[c].st # "away"
                         /\ \E k \in 1..Len(pg[c].up) :
                               /\ \A j \in 1..(k - 1) : pg[c].up[j].free
                               /\ pg[c].up[k].name = name
                               /\ pg[c].up[k].free \/ (pg[c].up[k].free = FALSE /\ SameParams(pg[c].up[k].args, args)) = TRUE
                               /\ Set(c, [pg[c] EXCEPT !.up = After(@, k)])

\* nothing remains to be done
Settled(c) == LET k == pg[c]
              IN k.st = "open" => (/\ k.told /\ k.linked
                                   /\ k.down = <<>> /\ k.log = <<>>
                                   /\ \A i \in 1..Len(k.up) : k.up[i].free)
=============================================================================
