------------------------------ MODULE FileStore ------------------------------
(* Files, their providers and their readers. The content of a file is a      *)
(* run-length encoded byte string. A store is a sequence of providers; a      *)
(* provider is a set of files [name, d: content, enc: encoding].              *)
EXTENDS Bytes

CONSTANT Readers
VARIABLES store, rd
NoReader == [st |-> "none", d |-> <<>>, at |-> 0, eof |-> FALSE, enc |-> <<>>]
StoreInit(s) == store = s /\ rd = [k \in Readers |-> NoReader]

In(p, name) == {f \in store[p] : f.name = name}
\* the first provider which has the file, 0 if none has it
Provider(name) == IF \E p \in 1..Len(store) : In(p, name) # {}
                  THEN CHOOSE p \in 1..Len(store) : In(p, name) # {} /\ \A q \in 1..(p - 1) : In(q, name) = {}
                  ELSE 0
File(name) == CHOOSE f \in In(Provider(name), name) : TRUE
\* opens a file; found: whether one was obtained, asked: the providers which were asked for it, in order
Open(k, name, found, asked) ==
    LET p == Provider(name)
    IN /\ found = (p > 0)
       /\ asked = [i \in 1..(IF p > 0 THEN p ELSE Len(store)) |-> i]
       /\ rd' = [rd EXCEPT ![k] = IF p = 0 THEN NoReader ELSE [st |-> "open", d |-> File(name).d, at |-> 0, eof |-> FALSE, enc |-> File(name).enc]]
       /\ UNCHANGED store
\* a reader of a given content
Give(k, d, enc) == rd' = [rd EXCEPT ![k] = [st |-> "open", d |-> d, at |-> 0, eof |-> FALSE, enc |-> enc]] /\ UNCHANGED store

Size(k) == RLen(rd[k].d)
Remains(k) == Size(k) - rd[k].at
Least(a, b) == IF a < b THEN a ELSE b
\* n bytes are requested, d is obtained, eof: the end is reported after that
Read(k, n, d, eof) ==
    LET got == Least(n, Remains(k))
    IN /\ rd[k].st = "open"
       /\ d = RTake(RDrop(rd[k].d, rd[k].at), got)
       /\ rd' = [rd EXCEPT ![k].at = @ + got, ![k].eof = eof]
       /\ (eof => got = Remains(k)) = TRUE           \* never reported too early
       /\ (got < n => eof) = TRUE                    \* nor too late
       /\ (rd[k].eof => eof) = TRUE                  \* for ever
       /\ UNCHANGED store
Encoding(k, enc) == rd[k].st = "open" /\ enc = rd[k].enc /\ UNCHANGED <<store, rd>>
Move(k, j) == rd[k].st = "open" /\ rd' = [rd EXCEPT ![j] = rd[k], ![k] = NoReader] /\ UNCHANGED store
Close(k) == rd' = [rd EXCEPT ![k] = NoReader] /\ UNCHANGED store
=============================================================================
