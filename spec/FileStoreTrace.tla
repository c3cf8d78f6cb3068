--------------------------- MODULE FileStoreTrace ---------------------------
(* Recorded uses of the real files and providers against FileStore.          *)
EXTENDS TraceBase, Bytes
VARIABLES store, rd
vars == <<tid, pos, store, rd>>
S == INSTANCE FileStore WITH Readers <- 1..9

Init == TraceInit /\ S!StoreInit(<<>>)
Setting == E.o = "store" /\ store' = [p \in 1..Len(E.p) |-> {E.p[p][i] : i \in 1..Len(E.p[p])}] /\ rd' = [k \in 1..9 |-> S!NoReader]
Opening == E.o = "open" /\ S!Open(E.k, E.name, E.found, E.asked)
Giving == E.o = "file" /\ S!Give(E.k, E.d, E.enc)
Reading == E.o = "read" /\ S!Read(E.k, E.n, E.d, E.eof) /\ E.got = RLen(E.d)
Coding == E.o = "enc" /\ S!Encoding(E.k, E.enc) /\ (E.coded <=> E.enc # <<>>) = TRUE
Moving == E.o = "move" /\ S!Move(E.k, E.j)
Ending == E.o = "end" /\ (E.eof => S!Remains(E.k) = 0) = TRUE /\ (rd[E.k].eof => E.eof) = TRUE /\ UNCHANGED <<store, rd>>
Closing == E.o = "close" /\ S!Close(E.k)
\* an asset of the library: its bytes are summed up by their number and a digest
Asset == E.o = "asset" /\ LET f == {a \in store[1] : a.name = E.name}
                          IN /\ E.found = (f # {})
                             /\ (E.found => \E a \in f : a.enc = E.enc /\ a.d = E.sum) = TRUE
                       /\ UNCHANGED <<store, rd>>
Next == Consume /\ (Setting \/ Opening \/ Giving \/ Reading \/ Coding \/ Ending \/ Closing \/ Moving \/ Asset) /\ Report
Spec == Init /\ [][Next]_vars
=============================================================================
