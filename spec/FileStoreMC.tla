----------------------------- MODULE FileStoreMC -----------------------------
(* Small stores and readers, all the sequences of sizes. What a reader gives  *)
(* is the beginning of its file, all of it once the end is reported.          *)
EXTENDS Bytes, TLC, Json, IOUtils
CONSTANTS Sizes, MaxOps, MaxReaders, Layers
VARIABLES store, rd, got, names, hist
vars == <<store, rd, got, names, hist>>
Rds == 1..MaxReaders
S == INSTANCE FileStore WITH Readers <- Rds

Name(i) == <<96 + i>>
Content(p, i, n) == RleOf([j \in 1..n |-> 16 * p + 4 * i + j])
\* a provider has a file of a length, or none (-1)
Stores == [1..Layers -> [1..2 -> {-1, 0, 1, 3}]]
StoreOf(f) == [p \in 1..Layers |-> {[name |-> Name(i), d |-> Content(p, i, f[p][i]), enc |-> <<>>] : i \in {j \in 1..2 : f[p][j] >= 0}}]
Init == /\ \E f \in Stores : S!StoreInit(StoreOf(f))
        /\ got = [k \in Rds |-> <<>>] /\ names = [k \in Rds |-> 0] /\ hist = <<>>
Note(o) == hist' = Append(hist, o)
Opens(k, i) == /\ rd[k].st = "none"
               /\ LET p == S!Provider(Name(i))
                  IN S!Open(k, Name(i), p > 0, [j \in 1..(IF p > 0 THEN p ELSE Layers) |-> j])
               /\ names' = [names EXCEPT ![k] = i] /\ got' = [got EXCEPT ![k] = <<>>] /\ Note(<<"open", k, i>>)
Reads(k, n) == /\ rd[k].st = "open"
               /\ LET g == S!Least(n, S!Remains(k)) d == RTake(RDrop(rd[k].d, rd[k].at), g)
                  IN /\ \E e \in BOOLEAN : S!Read(k, n, d, e)
                     /\ got' = [got EXCEPT ![k] = RCat(@, d)]
               /\ UNCHANGED names /\ Note(<<"read", k, n>>)
Moves(k, j) == /\ rd[k].st = "open" /\ rd[j].st = "none" /\ S!Move(k, j)
               /\ got' = [got EXCEPT ![j] = got[k], ![k] = <<>>] /\ names' = [names EXCEPT ![j] = names[k], ![k] = 0] /\ Note(<<"move", k, j>>)
Closes(k) == rd[k].st = "open" /\ S!Close(k) /\ UNCHANGED <<got, names>> /\ Note(<<"close", k>>)
Next == Len(hist) < MaxOps /\ \E k \in Rds : (\E i \in 1..2 : Opens(k, i)) \/ (\E n \in Sizes : Reads(k, n)) \/ (\E j \in Rds : Moves(k, j)) \/ Closes(k)
Spec == Init /\ [][Next]_vars

Faithful == \A k \in Rds : rd[k].st = "open" =>
                /\ RIsPrefix(got[k], rd[k].d)
                /\ (rd[k].eof => got[k] = rd[k].d)
\* the file is that of the first provider which has one, whatever the others have
FirstWins == \A k \in Rds : rd[k].st = "open" =>
                \E p \in 1..Layers : /\ \E f \in store[p] : f.name = Name(names[k]) /\ f.d = rd[k].d
                                     /\ \A q \in 1..(p - 1) : \A f \in store[q] : f.name # Name(names[k])
View == <<store, rd, got, names, Len(hist)>>
EmitFinal == (IOEnv.MODE = "gen" /\ Len(hist) = MaxOps) =>
    PrintT(ToJson([ops |-> hist, files |-> [p \in 1..Layers |-> [i \in 1..2 |-> IF \E f \in store[p] : f.name = Name(i) THEN RLen((CHOOSE f \in store[p] : f.name = Name(i)).d) ELSE -1]]]))
=============================================================================
