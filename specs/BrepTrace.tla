----------------------------- MODULE BrepTrace ------------------------------
(***************************************************************************)
(* Recorded calls of brep_writer.py (S06). State: objects, locations,      *)
(* curves of 3 and 2 dimensions, surfaces made so far, in order.           *)
(***************************************************************************)
EXTENDS Brep, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, M, L, G, lost
Init == lost = FALSE /\ l = 1 /\ M = <<>> /\ L = <<>> /\ G = [c3 |-> <<>>, c2 |-> <<>>, surfs |-> <<>>]
Shapes == {"Ed", "Wi", "Fa", "Sh", "So", "Cs", "Co"}
RefOf(x) == Ref(x[1], x[2], x[3])
Refs(e) == [k \in DOMAIN e.args[1] |-> RefOf(e.args[1][k])]
RI(p) == [d \in DOMAIN p |-> I(p[d])]
CurveVal(d, c, t) == RCurve(IF d = 3 THEN G.c3[c] ELSE G.c2[c], t)
EndsFit(e) == LET d == e.args[1] x == e.args[2] c == e.args[3] s == e.args[4] a == e.args[5] b == e.args[6]
                  Val(t) == IF d = 3 THEN CurveVal(3, c, t) ELSE LET w == TLCEval(CurveVal(2, c, t)) IN RSurf(G.surfs[s], w[1], w[2])
              IN Val(a) = Pt(M, x, 1) /\ Val(b) = Pt(M, x, 2)
Allowed(e) ==
    CASE e.op = "Ve" -> Len(e.args[1]) = 3
      [] e.op \in Shapes -> MayMake(M, e.op, Refs(e))
      [] e.op = "append" -> M[e.args[2][1]].k \in Kids(M[e.args[1]].k)
      [] e.op \in {"c3", "c2"} -> MayCurve(e.geo, IF e.op = "c3" THEN 3 ELSE 2)
      [] e.op = "loc" -> e.args[2] = 0
      [] e.op = "attach" -> EndsFit(e)
      [] OTHER -> TRUE
NewM(e) ==
    CASE e.op = "Ve" -> Append(M, [Blank EXCEPT !.k = "Ve", !.p = RI(e.args[1])])
      [] e.op \in Shapes -> LET new == MakeShape(M, e.op, Refs(e)) IN IF e.op = "Fa" /\ e.args[2] > 0 THEN [new EXCEPT ![Len(new)].surf = e.args[2]] ELSE new
      [] e.op = "append" -> [M EXCEPT ![e.args[1]].ch = Append(@, RefOf(e.args[2]))]
      [] e.op = "free" -> [k \in DOMAIN M |-> IF k \in {r.o : r \in Rng(M[e.args[1]].ch)} THEN [M[k] EXCEPT !.free = 1] ELSE M[k]]
      [] e.op = "attach" -> [M EXCEPT ![e.args[2]].reps = Append(@, [t |-> IF e.args[1] = 3 THEN 1 ELSE 2, c |-> e.args[3], s |-> e.args[4], a |-> e.args[5], b |-> e.args[6]])]
      [] OTHER -> M
NewL(e) == CASE e.op = "loc" -> Append(L, [t |-> 1, m |-> RI(e.args[1][1] \o e.args[1][2] \o e.args[1][3])])
             [] e.op = "cloc" -> Append(L, [t |-> 2, pw |-> e.args[1]])
             [] OTHER -> L
NewG(e) == CASE e.op = "c3" -> [G EXCEPT !.c3 = Append(@, e.geo)] [] e.op = "c2" -> [G EXCEPT !.c2 = Append(@, e.geo)]
             [] e.op = "surf" -> [G EXCEPT !.surfs = Append(@, e.geo)] [] OTHER -> G

Implicit(x) == M[x].k = "Fa" /\ M[x].surf = 0
(* edges of faces whose surface is made by the writer *)
EdgesOf(f) == UNION {{r.o : r \in Rng(M[w.o].ch)} : w \in Rng(M[f].ch)}
ShapeOk(F, nr, x) ==
    LET r == Rec(F, nr[x]) IN
    C("kind", r.k = M[x].k)
    \cup C("flags", r.flags = Flags(M, x))
    \cup C("children", /\ Len(r.refs) = Len(M[x].ch)
                       /\ \A j \in DOMAIN r.refs \cap DOMAIN M[x].ch : r.refs[j].or = M[x].ch[j].or /\ Place(F.locs, r.refs[j].loc) = Place(L, M[x].ch[j].loc))
    \cup C("point", M[x].k = "Ve" => r.p = M[x].p)
    \cup (IF M[x].k # "Ed" THEN {} ELSE
          (* what the user attached comes as given; what is added fits the ends *)
          LET n == Len(M[x].reps) IN
          C("curves", /\ Len(r.reps) >= (IF n = 0 THEN 1 ELSE n)
                      /\ \A j \in 1..n \cap DOMAIN r.reps : LET a == M[x].reps[j] IN
                           \E w \in Rng(r.reps) : /\ w.t = a.t /\ w.a = a.a /\ w.b = a.b
                                                   /\ (IF a.t = 1 THEN F.c3[w.c] = G.c3[a.c] ELSE F.c2[w.c] = G.c2[a.c] /\ F.surfs[w.s] = G.surfs[a.s])
                      /\ n = 0 => \E w \in Rng(r.reps) : w.t = 1)
          \cup C("ends", \A w \in Rng(r.reps) : RepOk(M, F, x, w, n = 0)))
    \cup (IF M[x].k # "Fa" THEN {} ELSE
          IF ~Implicit(x) THEN C("surface", F.surfs[r.surf] = G.surfs[M[x].surf] /\ r.sloc = 0)
          ELSE C("on surface", \A y \in EdgesOf(x) : \E w \in Rng(Rec(F, nr[y]).reps) : w.t = 2 /\ w.s = r.surf))
Placed(p, j) == Image(Matrix(L, j), p)
Box(S) == LET q == SetToSeq(S) IN << [d \in 1..3 |-> Lowest([k \in DOMAIN q |-> q[k][d]])], [d \in 1..3 |-> Highest([k \in DOMAIN q |-> q[k][d]])] >>
AbsV(x) == IF x < 0 THEN -x ELSE x
Near1(a, q) == (* a in units of 1e-3 *) LET d == a * q[2] - q[1] * 1000 IN -q[2] <= d /\ d <= q[2]
OccOk(e, o, j) ==
    LET S == Reach(M, o) Of(q) == {x \in S : M[x].k = q}
        box == Box({Placed(M[x].p, j) : x \in Of("Ve")})
        vol == FoldLeft(LAMBDA acc, x : acc + AbsV(SolidVol(M, x)), 0, SetToSeq(Of("So"))) IN
    C("read counts", e.occ.n = <<Cardinality(Of("Ve")), Cardinality(Of("Ed")), Cardinality(Of("Fa")), Cardinality(Of("So"))>>)
    \cup C("read box", \A d \in 1..3 : Near1(e.occ.box[1][d], box[1][d]) /\ Near1(e.occ.box[2][d], box[2][d]))
    \cup C("read volume", Near1(e.occ.vol, Q(vol, 6)))
WriteBad(e) ==
    LET F == e.file o == e.args[1] j == e.args[2] IN
    IF ~F.ok THEN {"format"} ELSE IF ~RefsOk(F) THEN {"references"}
    ELSE LET nr == TLCEval(Numbers(M, o, F)) R == Reach(M, o) IN
         IF DOMAIN nr # R \/ \E x \in R : nr[x] = 0 THEN {"sharing"}
         ELSE C("records", {nr[x] : x \in R} = 1..Len(F.shapes) /\ Cardinality(R) = Len(F.shapes))
              \cup C("root", F.root.or = "+" /\ Place(F.locs, F.root.loc) = Place(L, j))
              \cup UNION {ShapeOk(F, nr, x) : x \in R}
              \cup (IF e.occ.n = <<>> THEN {} ELSE OccOk(e, o, j))
(* approximations of lines, planes and bilinear surfaces *)
MidPt(P) == [d \in DOMAIN P[1] |-> Div(Sum([k \in DOMAIN P |-> P[k][d]]), I(Len(P)))]
PlaneOk(P, g, uv) ==
    LET R == [k \in DOMAIN P |-> RI(P[k])] n == Len(P) IN
    IF n = 2 THEN LET t == CurveDomain(g) IN
         RCurve(g, t[1]) = R[1] /\ RCurve(g, t[2]) = R[2] /\ \A k \in 1..3 : RCurve(g, Between(t[1], t[2], <<k, 4>>)) = Mix(R[1], R[2], <<k, 4>>)
    ELSE /\ Len(uv) = n /\ \A k \in 1..n : RSurf(g, uv[k][1], uv[k][2]) = R[k]
         /\ LET m == MidPt(uv) IN RSurf(g, m[1], m[2]) = MidPt(R)
         /\ \A i \in 1..n : LET m == MidPt(<<uv[i], uv[IF i = n THEN 1 ELSE i + 1]>>) IN RSurf(g, m[1], m[2]) = MidPt(<<R[i], R[IF i = n THEN 1 ELSE i + 1]>>)
Bad(e) ==
  IF e.op = "driver" THEN {"exception"}
  ELSE IF ~Allowed(e) THEN C("refused", e.exc # "")
  ELSE IF e.exc # "" THEN {"exception"}
  ELSE CASE e.op = "write" -> WriteBad(e)
         [] e.op = "Wi" -> C("closed", e.res = (IF EvenEnds(M, Refs(e)) THEN 1 ELSE 0))
         [] e.op = "append" -> C("closed", M[e.args[1]].k = "Wi" => e.res = (IF EvenEnds(M, Append(M[e.args[1]].ch, RefOf(e.args[2]))) THEN 1 ELSE 0))
         [] e.op \in Shapes -> C("references", e.res = 0)
         [] e.op = "plane" -> C("argument", e.res = 1) \cup C("approximation", PlaneOk(e.args[1], e.geo, e.file.uv))
         [] OTHER -> {}
Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args, exc |-> e.exc, clauses |-> bad]))
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E e \in {Trace[l]} :
             IF e.op = "new" THEN M' = <<>> /\ L' = <<>> /\ G' = [c3 |-> <<>>, c2 |-> <<>>, surfs |-> <<>>] /\ lost' = FALSE
             ELSE IF lost THEN UNCHANGED <<M, L, G, lost>>
             ELSE \E bad \in {TLCEval(Bad(e))} :
                  /\ IF bad = {} THEN TRUE ELSE Report(e, bad)
                  (* the objects made are not known any more *)
                  /\ lost' = (bad \cap {"exception", "refused"} # {})
                  /\ IF e.exc # "" \/ ~Allowed(e) THEN UNCHANGED <<M, L, G>> ELSE M' = TLCEval(NewM(e)) /\ L' = NewL(e) /\ G' = NewG(e)
Spec == Init /\ [][Step]_<<l, M, L, G, lost>>
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
