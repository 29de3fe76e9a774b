-------------------------------- MODULE Brep --------------------------------
(***************************************************************************)
(* Models built by brep_writer.py and the files written of them.           *)
(* An object: [k, ch (references [o, or, loc]), and by kind: p (point),    *)
(* surf, reps of edges, free]; objects are numbered by creation, children  *)
(* are older than parents. Location 0 is identity.                         *)
(***************************************************************************)
EXTENDS Splines
Kids(k) == CASE k = "Ve" -> {} [] k = "Ed" -> {"Ve"} [] k = "Wi" -> {"Ed"} [] k = "Fa" -> {"Wi", "Ed"} [] k = "Sh" -> {"Fa"}
             [] k = "So" -> {"Sh"} [] k = "Cs" -> {"So"} [] k = "Co" -> {"Cs", "So", "Sh", "Wi", "Fa", "Ed", "Ve"}
Plus == "+"
Ref(o, r, l) == [o |-> o, or |-> r, loc |-> l]
(* ends of edges in a wire *)
EndCount(M, refs, v) == FoldLeft(LAMBDA acc, r : acc + Cardinality({i \in 1..2 : M[r.o].ch[i].o = v}), 0, refs)
EvenEnds(M, refs) == \A v \in UNION {{M[r.o].ch[i].o : i \in 1..2} : r \in Rng(refs)} : EndCount(M, refs, v) % 2 = 0
Closed(M, w) == EvenEnds(M, M[w].ch)
KindsOf(M, refs) == {M[r.o].k : r \in Rng(refs)}
(* a shape may be made of these references *)
MayMake(M, k, refs) ==
    /\ KindsOf(M, refs) \subseteq Kids(k)
    /\ k = "Ed" => Len(refs) = 2
    /\ k = "Fa" => /\ Len(refs) > 0 /\ Cardinality(KindsOf(M, refs)) = 1
                   /\ IF M[refs[1].o].k = "Ed" THEN EvenEnds(M, refs) ELSE \A r \in Rng(refs) : Closed(M, r.o)
Blank == [k |-> "", ch |-> <<>>, p |-> <<>>, surf |-> 0, reps |-> <<>>, free |-> 0]
(* Edges go from their first to their second vertex. A face of edges gets a wire of its own: k "Fa" refers to it by a new object *)
MakeShape(M, k, refs) ==
    CASE k = "Ed" -> Append(M, [Blank EXCEPT !.k = k, !.ch = <<[refs[1] EXCEPT !.or = "+"], [refs[2] EXCEPT !.or = "-"]>>])
      [] k = "Fa" /\ M[refs[1].o].k = "Ed" ->
             Append(Append(M, [Blank EXCEPT !.k = "Wi", !.ch = refs]), [Blank EXCEPT !.k = "Fa", !.ch = <<Ref(Len(M) + 1, "+", 0)>>])
      [] OTHER -> Append(M, [Blank EXCEPT !.k = k, !.ch = refs, !.free = IF k = "Co" THEN 1 ELSE 0])
RECURSIVE Below(_, _)
Below(M, S) == LET T == TLCEval(S \cup {r.o : r \in UNION {Rng(M[x].ch) : x \in S}}) IN IF T = S THEN S ELSE Below(M, T)
Reach(M, o) == Below(M, {o})
Bit(b) == IF b THEN "1" ELSE "0"
Flags(M, o) ==
    LET k == M[o].k f == IF M[o].free = 1 THEN "1" ELSE "0" IN
    CASE k = "Ve" -> f \o "101101" [] k = "So" -> f \o "100000" [] k = "Co" -> f \o "100000"
      [] k = "Wi" -> f \o "101" \o Bit(Closed(M, o)) \o "00" [] OTHER -> f \o "101000"

(* ---- locations: L[j] = [m |-> 12 numbers] or [pw |-> <<<<location, power>>>>]; the same in the file *)
RECURSIVE Place(_, _)
Place(L, j) == IF j = 0 THEN <<"identity">>
               ELSE IF L[j].t = 1 THEN <<"matrix", L[j].m>>
               ELSE <<"product", LET f == SelectSeq(L[j].pw, LAMBDA x : x[1] # 0) IN [k \in DOMAIN f |-> <<Place(L, f[k][1]), f[k][2]>>]>>
(* matrices 3 x 4; the factors of a product are applied in their order *)
At2(m, r, c) == m[(r - 1) * 4 + c]
RowOf == <<1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3>>
ColOf == <<1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4>>
MMul(a, b) == [i \in 1..12 |->
    Add(Sum([k \in 1..3 |-> Mul(At2(a, RowOf[i], k), At2(b, k, ColOf[i]))]), IF ColOf[i] = 4 THEN At2(a, RowOf[i], 4) ELSE Zero)]
MId == [i \in 1..12 |-> IF i \in {1, 6, 11} THEN One ELSE Zero]
RECURSIVE MPow(_, _)
MPow(m, p) == IF p = 0 THEN MId ELSE TLCEval(MMul(m, MPow(m, p - 1)))
RECURSIVE Matrix(_, _)
Matrix(L, j) == IF j = 0 THEN MId ELSE IF L[j].t = 1 THEN L[j].m
                ELSE FoldLeft(LAMBDA acc, x : TLCEval(MMul(MPow(Matrix(L, x[1]), x[2]), acc)), MId, L[j].pw)
Image(m, p) == [r \in 1..3 |-> Add(Sum([c \in 1..3 |-> Mul(At2(m, r, c), p[c])]), At2(m, r, 4))]

(* ---- curves and surfaces: [deg, poles, knots <<<<knot, multiplicity>>>>, rat], in the model and in the file *)
Unpack(kn) == FoldLeft(LAMBDA acc, x : acc \o [j \in 1..x[2] |-> x[1]], <<>>, kn)
RCurve(c, t) == LET K == TLCEval(Unpack(c.knots)) B == TLCEval(All(K, c.deg, t)) D == Len(c.poles[1]) - (IF c.rat THEN 1 ELSE 0)
                    W == [k \in DOMAIN c.poles |-> IF c.rat THEN c.poles[k][D + 1] ELSE One] w == Dot(B, W) IN
                [d \in 1..D |-> Div(Dot(B, [k \in DOMAIN c.poles |-> Mul(c.poles[k][d], W[k])]), w)]
RSurf(s, u, v) ==
    LET Ku == TLCEval(Unpack(s.ku)) Kv == TLCEval(Unpack(s.kv)) A == TLCEval(All(Ku, s.du, u)) B == TLCEval(All(Kv, s.dv, v))
        Wt(i, j) == IF s.rat THEN s.poles[i][j][4] ELSE One
        Of(X(_, _)) == Dot(A, [i \in DOMAIN A |-> IF A[i][1] = 0 THEN Zero ELSE Dot(B, [j \in DOMAIN B |-> X(i, j)])])
        w == Of(LAMBDA i, j : Wt(i, j)) IN
    [d \in 1..3 |-> Div(Of(LAMBDA i, j : Mul(s.poles[i][j][d], Wt(i, j))), w)]
CurveDomain(c) == <<c.knots[1][1], c.knots[Len(c.knots)][1]>>
MayCurve(c, dim) == /\ \A p \in Rng(c.poles) : Len(p) = dim + (IF c.rat THEN 1 ELSE 0)
                    /\ FoldLeft(LAMBDA acc, x : acc + x[2], 0, c.knots) = c.deg + Len(c.poles) + 1
Half == <<1, 2>>
Mix(a, b, t) == [d \in DOMAIN a |-> Add(Mul(Sub(One, t), a[d]), Mul(t, b[d]))]
Between(a, b, t) == Add(Mul(Sub(One, t), a), Mul(t, b))

(* ---- the file: records of shapes in order of the file; the number of a record is counted from the end *)
Num(F, i) == Len(F.shapes) - i + 1
Rec(F, n) == F.shapes[Len(F.shapes) - n + 1]
RefsOk(F) ==
    /\ \A i \in DOMAIN F.shapes : \A r \in Rng(F.shapes[i].refs) :
          (* subshapes are written first *)
          r.o \in 1..Len(F.shapes) /\ r.o > Num(F, i) /\ r.loc \in 0..Len(F.locs)
    /\ \A i \in DOMAIN F.shapes :
          /\ F.shapes[i].k = "Fa" => F.shapes[i].surf \in 1..Len(F.surfs) /\ F.shapes[i].sloc \in 0..Len(F.locs)
          /\ \A x \in Rng(F.shapes[i].reps) : /\ x.c \in 1..Len(IF x.t = 1 THEN F.c3 ELSE F.c2)
                                               /\ x.t = 2 => x.s \in 1..Len(F.surfs)
                                               /\ x.loc \in 0..Len(F.locs)
    /\ \A j \in DOMAIN F.locs : F.locs[j].t = 2 => \A x \in Rng(F.locs[j].pw) : x[1] \in 1..(j - 1)
    /\ F.root.o = 1 /\ F.root.loc \in 0..Len(F.locs)
(* record numbers of the objects: those of the children follow from that of the parent *)
Numbers(M, o, F) ==
    LET down == [i \in 1..o |-> o + 1 - i]
        Go(m, x) == IF x \notin DOMAIN m THEN m
                    ELSE LET n == m[x] IN
                         IF n = 0 \/ Len(Rec(F, n).refs) # Len(M[x].ch) THEN m
                         ELSE FoldLeft(LAMBDA acc, j : LET c == M[x].ch[j].o r == Rec(F, n).refs[j].o IN
                                  IF c \in DOMAIN acc THEN (IF acc[c] = r THEN acc ELSE [acc EXCEPT ![c] = 0]) ELSE (c :> r) @@ acc, m, [j \in 1..Len(M[x].ch) |-> j])
    IN FoldLeft(LAMBDA m, x : TLCEval(Go(m, x)), (o :> 1), down)
(* ---- geometry of an edge with these vertices *)
Pt(M, e, i) == M[M[e].ch[i].o].p
(* a written representation fits the vertices; those made by the writer are straight *)
RepOk(M, F, e, x, straight) ==
    LET c == IF x.t = 1 THEN F.c3[x.c] ELSE F.c2[x.c]
        Val(t) == IF x.t = 1 THEN RCurve(c, t) ELSE LET w == TLCEval(RCurve(c, t)) IN RSurf(F.surfs[x.s], w[1], w[2])
    IN /\ Val(x.a) = Pt(M, e, 1) /\ Val(x.b) = Pt(M, e, 2)
       /\ straight => Val(Between(x.a, x.b, Half)) = Mix(Pt(M, e, 1), Pt(M, e, 2), Half)
(* ---- the polyhedron of a solid: six times its volume *)
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
Sgn(r) == IF r = "-" THEN -1 ELSE 1
IntP(p) == [d \in 1..3 |-> p[d][1] \div p[d][2]]
FirstV(M, r) == IF r.or = "-" THEN M[r.o].ch[2].o ELSE M[r.o].ch[1].o
WireVol(M, w) == LET n == Len(M[w].ch) P(k) == IntP(M[FirstV(M, M[w].ch[k])].p) IN
    FoldLeft(LAMBDA acc, k : acc + Det3(P(1), P(k), P(k + 1)), 0, [k \in 1..(n - 2) |-> k + 1])
SolidVol(M, s) == FoldLeft(LAMBDA a, sh : a + Sgn(sh.or) * FoldLeft(LAMBDA b, f : b + Sgn(f.or) *
        FoldLeft(LAMBDA c, w : c + Sgn(w.or) * WireVol(M, w.o), 0, M[f.o].ch), 0, M[sh.o].ch), 0, M[s].ch)
=============================================================================
