----------------------------- MODULE BrepDesign -----------------------------
(***************************************************************************)
(* A sheet of two triangles with a common edge, built, printed and written *)
(* in parts and as a whole, put in compounds. The writer of the model puts *)
(* every object below the written one into the file once, subshapes first. *)
(***************************************************************************)
EXTENDS Brep, Json
CONSTANTS MaxOps, Objs, PRINT
VARIABLES M, hist, files
Op(k, a) == [op |-> k, args |-> a]
R3(o, r) == <<o, r, 0>>
Base == << Op("Ve", << <<0, 0, 0>> >>), Op("Ve", << <<2, 0, 0>> >>), Op("Ve", << <<0, 2, 0>> >>), Op("Ve", << <<2, 2, 1>> >>),
           Op("Ed", << <<R3(1, "+"), R3(2, "-")>>, 0 >>), Op("Ed", << <<R3(2, "+"), R3(3, "+")>>, 0 >>), Op("Ed", << <<R3(3, "-"), R3(1, "+")>>, 0 >>),
           Op("Ed", << <<R3(2, "+"), R3(4, "-")>>, 0 >>), Op("Ed", << <<R3(3, "+"), R3(4, "-")>>, 0 >>),
           Op("Fa", << <<R3(5, "+"), R3(6, "+"), R3(7, "+")>>, 0 >>), Op("Wi", << <<R3(8, "+"), R3(9, "-"), R3(6, "-")>>, 0 >>),
           Op("Fa", << <<R3(12, "+")>>, 0 >>), Op("Sh", << <<R3(11, "+"), R3(13, "+")>>, 0 >>),
           Op("loc", << << <<0, -1, 0, 3>>, <<1, 0, 0, 0>>, <<0, 0, 1, -2>> >>, 0 >>), Op("cloc", << << <<1, 2>> >> >>) >>
Fold(mm, x) == CASE x.op = "Ve" -> Append(mm, [Blank EXCEPT !.k = "Ve", !.p = [d \in 1..3 |-> I(x.args[1][d])]])
                [] x.op \in {"loc", "cloc"} -> mm
                [] OTHER -> MakeShape(mm, x.op, [j \in DOMAIN x.args[1] |-> Ref(x.args[1][j][1], x.args[1][j][2], x.args[1][j][3])])
M0 == FoldLeft(LAMBDA acc, x : TLCEval(Fold(acc, x)), <<>>, Base)
(* ---- the writer: objects after their children, each once *)
RECURSIVE Post(_, _, _)
PostRefs(mm, refs, seen) == FoldLeft(LAMBDA acc, r : Post(mm, r.o, acc), seen, refs)
Post(mm, o, seen) == IF o \in Rng(seen) THEN seen ELSE Append(PostRefs(mm, mm[o].ch, seen), o)
FileOf(mm, o) ==
    LET q == TLCEval(Post(mm, o, <<>>)) n == Len(q) At(x) == CHOOSE i \in 1..n : q[i] = x IN
    [ok |-> TRUE, locs |-> <<>>, c2 |-> <<>>, c3 |-> <<>>, surfs |-> <<>>, root |-> [o |-> n - At(o) + 1, or |-> "+", loc |-> 0],
     shapes |-> [i \in 1..n |-> [k |-> mm[q[i]].k, flags |-> Flags(mm, q[i]), reps |-> <<>>, surf |-> 0, sloc |-> 0,
                                 refs |-> [j \in DOMAIN mm[q[i]].ch |-> [o |-> n - At(mm[q[i]].ch[j].o) + 1, or |-> mm[q[i]].ch[j].or, loc |-> mm[q[i]].ch[j].loc]]]]]
Init == M = M0 /\ hist = <<>> /\ files = {}
Did(x) == hist' = Append(hist, x)
PrintShape(o) == UNCHANGED <<M, files>> /\ Did(Op("print", <<o>>))
WriteShape(o, j) == UNCHANGED M /\ files' = {<<o, M>>} /\ Did(Op("write", <<o, j, 0>>))
Tops == {x \in DOMAIN M : M[x].k = "Co"}
Put(a, b) == /\ M' = MakeShape(M, "Co", <<Ref(a, "+", 0), Ref(b, "-", 0)>>) /\ UNCHANGED files /\ Did(Op("Co", << <<R3(a, "+"), R3(b, "-")>>, 0 >>))
More(c, a, j) == /\ M' = [M EXCEPT ![c].ch = Append(@, Ref(a, "-", j))] /\ UNCHANGED files /\ Did(Op("append", <<c, <<a, "-", j>> >>))
Freed(c) == /\ M' = [k \in DOMAIN M |-> IF k \in {r.o : r \in Rng(M[c].ch)} THEN [M[k] EXCEPT !.free = 1] ELSE M[k]] /\ UNCHANGED files /\ Did(Op("free", <<c>>))
Next == /\ Len(hist) < MaxOps
        /\ \/ \E o \in Objs \cup Tops : PrintShape(o)
           \/ \E o \in Objs \cup Tops, j \in {0, 2} : WriteShape(o, j)
           \/ \E a, b \in Objs : Put(a, b)
           \/ \E c \in Tops, a \in Objs, j \in {0, 1} : More(c, a, j)
           \/ \E c \in Tops : Freed(c)
Spec == Init /\ [][Next]_<<M, hist, files>>
(* every file names each object below the written one once, shared objects are shared *)
FileLaw(o, mm) == LET f == TLCEval([FileOf(mm, o) EXCEPT !.locs = <<[t |-> 1], [t |-> 1]>>])
                      q == [f EXCEPT !.shapes = [i \in DOMAIN @ |-> [@[i] EXCEPT !.k = IF @ = "Fa" THEN "fa" ELSE @]]] IN
    /\ RefsOk(q)
    /\ LET nr == TLCEval(Numbers(mm, o, f)) IN /\ DOMAIN nr = Reach(mm, o) /\ \A x \in DOMAIN nr : nr[x] > 0
                                               /\ {nr[x] : x \in DOMAIN nr} = 1..Len(f.shapes) /\ Cardinality(DOMAIN nr) = Len(f.shapes)
                                               /\ \A x \in DOMAIN nr : Rec(f, nr[x]).k = mm[x].k
Laws == /\ \A x \in files : FileLaw(x[1], x[2])
        /\ \A o \in DOMAIN M : o \in Reach(M, o) /\ \A c \in Reach(M, o) : Reach(M, c) \subseteq Reach(M, o) /\ c <= o
        /\ Closed(M, 10) /\ Closed(M, 12)
(* objects do not change but by free and append *)
Steps == [][\A o \in DOMAIN M : M'[o].k = M[o].k /\ M'[o].p = M[o].p /\ SubSeq(M'[o].ch, 1, Len(M[o].ch)) = M[o].ch]_<<M, hist, files>>
Emit == IF PRINT /\ Len(hist') = MaxOps /\ hist'[MaxOps].op = "write" THEN PrintT("@@T " \o ToJson(Base \o hist')) ELSE TRUE
=============================================================================
