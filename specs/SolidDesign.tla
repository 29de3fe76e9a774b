----------------------------- MODULE SolidDesign ----------------------------
(***************************************************************************)
(* All short sequences of operations on bodies along a line.  The pieces   *)
(* are computed here (connected parts of equal membership); the rules of   *)
(* Solids.tla are checked of every step, and the sequences are replayed.   *)
(***************************************************************************)
EXTENDS Solids, Json
CONSTANTS MaxOps, PRINT
VARIABLES sets, fam, next, stamp, prog
View == <<sets, fam>>
X(i) == <<i, 0, 0>>
Iv(a, b) == {X(i) : i \in a..(b - 1)}
Body(a, b, k) == << [d |-> 3, tag |-> <<Iv(a, b), k>>, r |-> 0, n |-> "default_3d", c |-> Iv(a, b)] >>
Prefix == << <<"box", <<<<0, 0, 0>>, <<2, 1, 1>>>>, 0, <<>>>>, <<"box", <<<<1, 0, 0>>, <<4, 1, 1>>>>, 0, <<>>>>,
             <<"box", <<<<0, 0, 0>>, <<5, 1, 1>>>>, 0, <<>>>>, <<"set_region", <<"rock">>, 1, <<>>>>, <<"set_region", <<"clay">>, 2, <<>>>> >>
Reg(n) == CASE n = "rock" -> 1 [] n = "clay" -> 2 [] n = "sand" -> 3 [] OTHER -> 0
Named(S, n) == [k \in DOMAIN S |-> [S[k] EXCEPT !.r = Reg(n), !.n = n]]
Init == /\ sets = (1 :> Named(Body(0, 2, 1), "rock")) @@ (2 :> Named(Body(1, 4, 2), "clay")) @@ (3 :> Body(0, 5, 3))
        /\ fam = (1 :> {1}) @@ (2 :> {2}) @@ (3 :> {3})
        /\ next = 4 /\ stamp = 4 /\ prog = Prefix

(* connected parts of a set of cells of the line, from left to right *)
Parts(K) ==
    LET starts == {x \in K : X(x[1] - 1) \notin K}
        Of(x) == {y \in K : y[1] >= x[1] /\ \A z \in x[1]..y[1] : X(z) \in K}
    IN SetToSortSeq({Of(x) : x \in starts}, LAMBDA A, B : (CHOOSE a \in A : TRUE)[1] < (CHOOSE b \in B : TRUE)[1])
Piece(s, K) == [s EXCEPT !.c = K, !.tag = <<K, stamp>>]
Flat(q) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, q)
Map(s, ks) == [k \in DOMAIN ks |-> Piece(s, ks[k])]
CutOf(S, T) == Flat([k \in DOMAIN S |-> Map(S[k], Parts(S[k].c \ CellsD(T, 3)))])
IsecOf(S, T) == Flat([k \in DOMAIN S |-> Map(S[k], Parts(S[k].c \cap CellsD(T, 3)))])
(* cut along the boundaries of all bodies *)
FragOf(S, A) ==
    LET Sig(x) == {k \in DOMAIN A : x \in A[k].c}
        Sub(s) == Flat([i \in 1..1 |->
                    LET sigs == SetToSeq({Sig(x) : x \in s.c}) IN
                    Flat([j \in DOMAIN sigs |-> Map(s, Parts({x \in s.c : Sig(x) = sigs[j]}))])])
    IN Flat([k \in DOMAIN S |-> Sub(S[k])])
Cat(ids) == Flat([k \in DOMAIN ids |-> sets[ids[k]]])
Tags(S) == {s.tag : s \in Rng(S)}
Ids == DOMAIN sets
(* sets with common entities or faces go with the consumed ones *)
Gone(used) == {j \in Ids : j \in used \/ \E i \in used : fam[j] \cap fam[i] # {}}
Free(S) == \A i, j \in DOMAIN S : i # j => S[i].c \cap S[j].c = {}

Replace(used, outs, op) ==
    LET keep == Ids \ Gone(used)
        new == [k \in 1..Len(outs) |-> next + k - 1]
    IN /\ sets' = [i \in keep \cup Rng(new) |-> IF i \in keep THEN sets[i] ELSE outs[i - next + 1]]
       /\ fam' = [i \in keep \cup Rng(new) |-> IF i \in keep THEN fam[i] ELSE {stamp}]
       /\ next' = next + Len(outs) /\ stamp' = stamp + 1 /\ prog' = Append(prog, op)
Add(outs, fs, op) ==
    LET new == [k \in 1..Len(outs) |-> next + k - 1]
    IN /\ sets' = [i \in Ids \cup Rng(new) |-> IF i \in Ids THEN sets[i] ELSE outs[i - next + 1]]
       /\ fam' = [i \in Ids \cup Rng(new) |-> IF i \in Ids THEN fam[i] ELSE fs]
       /\ next' = next + Len(outs) /\ stamp' = stamp + 1 /\ prog' = Append(prog, op)
Set(i, S, op) == sets' = [sets EXCEPT ![i] = S] /\ prog' = Append(prog, op) /\ UNCHANGED <<fam, next, stamp>>
Full(i) == sets[i] # <<>>
Next ==
  /\ Len(prog) < MaxOps + Len(Prefix)
  /\ Cardinality(Ids) < 8
  /\ \/ \E i, j \in Ids : /\ i # j /\ Full(i) /\ Full(j) /\ Tags(sets[i]) \cap Tags(sets[j]) = {}
          /\ LET S == sets[i] T == sets[j] IN
             \/ Free(S) /\ Replace({i}, <<CutOf(S, T)>>, <<"cut", <<>>, i, <<j>>>>)
             \/ Free(S) /\ Replace({i}, <<IsecOf(S, T)>>, <<"intersect", <<>>, i, <<j>>>>)
             \/ Replace({i}, <<FragOf(S, S \o T)>>, <<"fragment", <<>>, i, <<j>>>>)
             \/ Replace({i, j}, <<FragOf(S, S \o T), FragOf(T, S \o T)>>, <<"fragment_all", <<>>, 0, <<i, j>>>>)
             \/ /\ Free(S) /\ Free(T)
                /\ LET A == FragOf(S, S \o T) B == FragOf(T, S \o T) IN
                   Replace({i, j}, <<SelectSeq(A, LAMBDA a : a.tag \notin Tags(B)), SelectSeq(B, LAMBDA b : b.tag \notin Tags(A)),
                                     SelectSeq(A, LAMBDA a : a.tag \in Tags(B)), SelectSeq(B, LAMBDA b : b.tag \in Tags(A))>>,
                           <<"split_by_cut", <<>>, i, <<j>>>>)
             \/ /\ Free(S) /\ Add(<<SelectSeq(S, LAMBDA s : Common(s, T) # {})>>, fam[i], <<"select", <<>>, i, <<j>>>>)
             \/ i < j /\ Add(<<S \o T>>, fam[i] \cup fam[j], <<"group", <<>>, 0, <<i, j>>>>)
     \/ \E i \in Ids : /\ Full(i)
          /\ LET S == sets[i] IN
             \/ \E n \in {"sand", "rock"} : Set(i, Named(S, n), <<"set_region", <<n>>, i, <<>>>>)
             \/ Set(i, SelectSeq(S, LAMBDA s : Cardinality(s.c) > 1), <<"small", <<1>>, i, <<>>>>)
             \/ Add(<<[k \in DOMAIN S |-> Piece(S[k], S[k].c)]>>, {stamp}, <<"copy", <<>>, i, <<>>>>)
             \/ Replace({i}, <<FragOf(S, S)>>, <<"fragment_all", <<>>, 0, <<i>>>>)
             \/ LET q == SetToSeq(Regions(S)) IN
                Len(q) > 1 /\ Add([k \in DOMAIN q |-> SelectSeq(S, LAMBDA s : s.r = q[k])], fam[i], <<"split_by_region", <<>>, i, <<>>>>)
Spec == Init /\ [][Next]_<<sets, fam, next, stamp, prog>>

(* ---- what has to hold of every step *)
NoEmpty == \A i \in Ids : \A s \in Rng(sets[i]) : s.c # {}
Lo == prog'[Len(prog')]
New(k) == sets'[next + k - 1]
StepInv == [][prog' # prog =>
    LET S == IF Lo[3] \in Ids THEN sets[Lo[3]] ELSE <<>>
        T == Cat(Lo[4])
    IN CASE Lo[1] = "cut" -> Pieces(S, New(1), LAMBDA s : Minus(s, T)) = {}
         [] Lo[1] = "intersect" -> Pieces(S, New(1), LAMBDA s : Common(s, T)) = {}
         [] Lo[1] = "fragment" -> Pieces(S, New(1), LAMBDA s : s.c) \cup Cutby(New(1), T) = {}
         [] Lo[1] = "fragment_all" ->
              /\ \A k \in DOMAIN Lo[4] : Pieces(sets[Lo[4][k]], New(k), LAMBDA s : s.c) \cup Cutby(New(k), T) = {}
              /\ Conforming(Flat([k \in DOMAIN Lo[4] |-> New(k)])) = {}
         [] Lo[1] = "split_by_cut" ->
              /\ Pieces(S, New(1), LAMBDA s : Minus(s, T)) = {} /\ Pieces(T, New(2), LAMBDA s : Minus(s, S)) = {}
              /\ Pieces(S, New(3), LAMBDA s : Common(s, T)) = {} /\ Pieces(T, New(4), LAMBDA s : Common(s, S)) = {}
              /\ Cells(New(3)) = Cells(New(4)) /\ Cells(New(1)) \cap Cells(New(2)) = {}
         [] OTHER -> TRUE]_<<sets, fam, next, stamp, prog>>
Emit == ~PRINT \/ PrintT("@@T " \o ToJson(prog'))
=============================================================================
