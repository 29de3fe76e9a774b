------------------------------ MODULE PolyOps ------------------------------
(***************************************************************************)
(* The operations of the polygon decomposition, as relations between the   *)
(* observed state before (prev, faces pF) and after (st, faces F) a call.  *)
(***************************************************************************)
EXTENDS PolyState

PolysOf(st) == Ids(st.polys)

(* end points of segment s in drawing (P, S) *)
EA(P, S, s) == P[S[s][1]]
EB(P, S, s) == P[S[s][2]]

Deg(S, p) == Cardinality({s \in DOMAIN S : S[s][1] = p \/ S[s][2] = p})

(* existing segment between two points, either orientation *)
Between(S, a, b) == {s \in DOMAIN S : {S[s][1], S[s][2]} = {a, b}}

Restrict(f, D) == [x \in D |-> f[x]]

(* cycle through a dart *)
OrbitOf(F, d) == CHOOSE w \in F.pos \cup F.neg : d \in SetOf(w)
(* face on the left of dart d : a positive cycle or <<>> for the outer face *)
FaceOfDart(F, d) == LET w == OrbitOf(F, d) IN IF w \in F.pos THEN w ELSE F.inface[w]

Abs(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x
D2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2])
(* 4 d^2 < tol2^2 decides "within tolerance"; tol2 = 0 stands for the      *)
(* default tolerance, below the lattice spacing (exact incidence).         *)
Near(p, q, tol2) == IF tol2 = 0 THEN p = q ELSE 4 * D2(p, q) < tol2 * tol2

(***************************************************************************)
(* P04  change report                                                      *)
(***************************************************************************)
Chg(e) == <<e.chg[1], SetOf(e.chg[2]), e.chg[3]>>

NewSegKind(pS, a, b, F, s) ==
    IF Between(pS, a, b) # {} THEN "none"
    ELSE IF Deg(pS, a) = 0 /\ Deg(pS, b) = 0 THEN "none"
    ELSE LET w1 == OrbitOf(F, <<s, 1>>) w0 == OrbitOf(F, <<s, 0>>) IN
         IF w1 = w0 THEN "shape"
         ELSE IF w1 \in F.pos /\ w0 \in F.pos THEN "split" ELSE "add"

(* expected report for new_segment giving segment s *)
NewSegChange(prev, pF, st, F, pS, s, a, b) ==
    LET kind == NewSegKind(pS, a, b, F, s)
        g0 == FacePoly(st, FaceOfDart(F, <<s, 0>>))
        g1 == FacePoly(st, FaceOfDart(F, <<s, 1>>))
        fresh == PolysOf(st) \ PolysOf(prev)
    IN CASE kind = "none"  -> {<<"none", {}, 0>>}
         [] kind = "shape" -> {<<"shape", {g0}, 0>>}
         [] kind = "split" -> {<<"split", {g0, g1} \ fresh, g>> : g \in fresh \cap {g0, g1}}
         [] OTHER          -> (* the bounded side is the new polygon *)
              LET inner == IF OrbitOf(F, <<s, 1>>) \in F.pos THEN g1 ELSE g0
                  outer == IF OrbitOf(F, <<s, 1>>) \in F.pos THEN g0 ELSE g1
              IN IF inner \in fresh THEN {<<"add", {outer}, inner>>} ELSE {}

DelSegKind(pS, pF, s) ==
    LET w1 == OrbitOf(pF, <<s, 1>>) w0 == OrbitOf(pF, <<s, 0>>) IN
    IF w1 = w0 THEN (IF Len(w1) = 2 THEN "none" ELSE "shape")
    ELSE IF w1 \in pF.pos /\ w0 \in pF.pos THEN "join" ELSE "remove"

DelSegChange(prev, pF, st, pS, s) ==
    LET kind == DelSegKind(pS, pF, s)
        g0 == PolyOfDart(prev, <<s, 0>>)
        g1 == PolyOfDart(prev, <<s, 1>>)
        gone == PolysOf(prev) \ PolysOf(st)
    IN CASE kind = "none"  -> {<<"none", {}, 0>>}
         [] kind = "shape" -> {<<"shape", {g0}, 0>>}
         [] kind = "join"  -> {<<"join", {g0, g1} \ gone, g>> : g \in gone \cap {g0, g1}}
         [] OTHER -> LET inner == IF OrbitOf(pF, <<s, 1>>) \in pF.pos THEN g1 ELSE g0
                         outer == IF OrbitOf(pF, <<s, 1>>) \in pF.pos THEN g0 ELSE g1
                     IN IF inner \in gone THEN {<<"remove", {outer}, inner>>} ELSE {}

(* Polygons the change report names exist / are gone as the kind says, and  *)
(* every other polygon id is untouched.                                     *)
ChangeBad(prev, pF, e, st, F, P, S) ==
    LET pP == PtMap(prev) pS == SegMap(prev) IN
    CASE e.op = "reset" -> C("initreport", Chg(e) = <<"add", {st.outer}, st.outer>>)
      [] e.op = "new_segment" ->
           LET s == e.res[1] IN
           IF s \notin DOMAIN S THEN {"segresult"}
           ELSE C("report", Chg(e) \in NewSegChange(prev, pF, st, F, pS, s, e.args[1], e.args[2]))
                \cup C("reportkind", Chg(e)[1] = NewSegKind(pS, e.args[1], e.args[2], F, s))
      [] e.op = "delete_segment" ->
           C("report", Chg(e) \in DelSegChange(prev, pF, st, pS, e.args[1]))
           \cup C("reportkind", Chg(e)[1] = DelSegKind(pS, pF, e.args[1]))
      [] OTHER -> {}

(***************************************************************************)
(* P02, dynamic part: polygon identity.  A face whose boundary cycles are  *)
(* the same before and after keeps its polygon id; insertions never retire *)
(* a polygon id and deletions never create one.                            *)
(***************************************************************************)
Inserting == {"new_segment", "add_line", "add_point"}
Deleting  == {"delete_segment", "delete_point"}
HolesIn(F, f) == {SetOf(w) : w \in {n \in F.neg : F.inface[n] = f}}

IdentityBad(prev, pF, e, st, F) ==
    IF e.op \in {"undo", "redo", "reset"} THEN {}
    ELSE LET keepers == {w \in pF.pos : \E v \in F.pos : SetOf(v) = SetOf(w)} IN
         C("outerid", st.outer = prev.outer)
         \cup (IF e.op = "join" THEN {} ELSE
               C("polyid", \A w \in keepers :
                   \A v \in F.pos : SetOf(v) = SetOf(w) => FacePoly(st, v) = FacePoly(prev, w)))
         \cup C("polyretire", e.op \in Inserting => PolysOf(prev) \subseteq PolysOf(st))
         \cup C("polycreate", e.op \in Deleting => PolysOf(st) \subseteq PolysOf(prev))

(***************************************************************************)
(* P05  insertion of segments and lines                                    *)
(***************************************************************************)
CLen(u) == MaxOf(IF u[1] < 0 THEN -u[1] ELSE u[1], IF u[2] < 0 THEN -u[2] ELSE u[2])
Within(P, S, s, a, b) == OnSegment(EA(P, S, s), a, b) /\ OnSegment(EB(P, S, s), a, b)
RECURSIVE SumLen(_, _, _)
SumLen(P, S, ss) == IF ss = {} THEN 0 ELSE
    LET s == CHOOSE s \in ss : TRUE IN CLen(Sub(EB(P, S, s), EA(P, S, s))) + SumLen(P, S, ss \ {s})
Covered(P, S, a, b) ==    \* the segment a-b is exactly a union of segments of (P, S)
    SumLen(P, S, {s \in DOMAIN S : Within(P, S, s, a, b)}) = CLen(Sub(b, a))

PtsKept(pP, P) == DOMAIN pP \subseteq DOMAIN P /\ \A p \in DOMAIN pP : P[p] = pP[p]

(* result list is a chain of segments a -> b *)
RECURSIVE ChainEnd(_, _, _, _)
ChainEnd(S, ss, k, p) ==
    IF k > Len(ss) THEN p
    ELSE IF ss[k] \notin DOMAIN S \/ p \notin {S[ss[k]][1], S[ss[k]][2]} THEN 0
    ELSE ChainEnd(S, ss, k + 1, CHOOSE q \in {S[ss[k]][1], S[ss[k]][2]} : q # p)

InsertBad(prev, e, st, P, S) ==
    LET pP == PtMap(prev) pS == SegMap(prev) IN
    CASE e.op = "new_segment" ->
           LET a == e.args[1] b == e.args[2] s == e.res[1] ex == Between(pS, a, b) IN
           C("pointsame", P = pP)
           \cup (IF ex # {} THEN C("existing", s \in ex /\ S = pS)
                 ELSE C("onenew", s \notin DOMAIN pS /\ DOMAIN S = DOMAIN pS \cup {s})
                      \cup C("oldsame", \A t \in DOMAIN pS : t \in DOMAIN S /\ S[t] = pS[t])
                      \cup C("endpoints", s \in DOMAIN S /\ S[s] = <<a, b>>))
      [] e.op = "add_line" /\ e.res # <<>> /\ e.res[1] > 0 /\ e.tol2 # 0 ->
           (* snapping mode: the line may bend to existing vertices, close    *)
           (* crossings are merged; it still is one connected chain           *)
           LET x == <<e.args[1], e.args[2]>> y == <<e.args[3], e.args[4]>>
               pa == {p \in DOMAIN P : Near(P[p], x, e.tol2)} pb == {p \in DOMAIN P : Near(P[p], y, e.tol2)}
           IN C("ends", pa # {} /\ pb # {})
              \cup C("chain", \E p \in pa : ChainEnd(S, e.res, 1, p) \in pb)
              \cup C("apart", \A p, q \in DOMAIN P : p < q => ~Near(P[p], P[q], e.tol2))
      [] e.op = "add_line" /\ e.res # <<>> /\ e.res[1] > 0 /\ e.tol2 = 0 ->
           LET x == <<e.args[1], e.args[2]>> y == <<e.args[3], e.args[4]>>
               pa == {p \in DOMAIN P : P[p] = x} pb == {p \in DOMAIN P : P[p] = y}
               newp == DOMAIN P \ DOMAIN pP
           IN C("ptskept", PtsKept(pP, P))
              \cup C("ends", pa # {} /\ pb # {})
              \cup C("linecover", Covered(P, S, x, y))
              \cup C("oldcover", \A s \in DOMAIN pS : Covered(P, S, EA(pP, pS, s), EB(pP, pS, s)))
              \cup C("nothingelse", \A s \in DOMAIN S : Within(P, S, s, x, y)
                        \/ \E t \in DOMAIN pS : Within(P, S, s, EA(pP, pS, t), EB(pP, pS, t)))
              \cup C("newpoints", \A p \in newp : P[p] = x \/ P[p] = y
                        \/ (OnSegment(P[p], x, y) /\ \E t \in DOMAIN pS :
                              OnSegment(P[p], EA(pP, pS, t), EB(pP, pS, t))))
              \cup C("fragmentid", \A s \in DOMAIN pS : s \in DOMAIN S
                        /\ Within(P, S, s, EA(pP, pS, s), EB(pP, pS, s)))
              \cup C("chain", pa # {} /\ pb # {} /\
                        \A p \in pa : ChainEnd(S, e.res, 1, p) \in pb)
              \cup C("chainonline", \A k \in DOMAIN e.res : e.res[k] \in DOMAIN S
                        /\ Within(P, S, e.res[k], x, y))
      [] e.op = "add_line" /\ ~(e.res # <<>> /\ e.res[1] > 0) -> {"lineresult"}
      [] OTHER -> {}

(***************************************************************************)
(* P06  adding a point                                                     *)
(* 4 d^2 < tol2^2 decides "within tolerance"; tol2 = 0 stands for the      *)
(* default tolerance, which is below the lattice spacing (exact incidence). *)
(***************************************************************************)
(* distance of q to segment a-b compared with the tolerance *)
NearSeg(q, a, b, tol2) ==
    LET ab == Sub(b, a) aq == Sub(q, a) t == Dot(ab, aq) dd == Dot(ab, ab) IN
    IF tol2 = 0 THEN OnSegment(q, a, b)
    ELSE IF t <= 0 THEN Near(q, a, tol2)
    ELSE IF t >= dd THEN Near(q, b, tol2)
    ELSE 4 * Sq(Cross(ab, aq)) < tol2 * tol2 * dd
(* r is the orthogonal projection of q to the line a-b *)
IsProj(r, q, a, b) == /\ Cross(Sub(b, a), Sub(r, a)) = 0
                      /\ Dot(Sub(b, a), Sub(q, r)) = 0

SnapBad(prev, pF, e, st, P, S) ==
    IF e.op # "add_point" THEN {} ELSE
    LET pP == PtMap(prev) pS == SegMap(prev)
        q == <<e.args[1], e.args[2]>>
        tol == e.tol2
        r == IF e.res # <<>> THEN e.res[1] ELSE 0
        nearp == {p \in DOMAIN pP : Near(pP[p], q, tol)}
        nears == {s \in DOMAIN pS : NearSeg(q, EA(pP, pS, s), EB(pP, pS, s), tol)}
        (* the closest of parallel segments; none when other directions come together *)
        VecOf(s) == Sub(EB(pP, pS, s), EA(pP, pS, s))
        off(s, v) == LET c == Cross(v, Sub(q, EA(pP, pS, s))) IN IF c < 0 THEN -c ELSE c
        best == IF nears = {} THEN {} ELSE
                LET v == VecOf(CHOOSE s \in nears : TRUE) IN
                IF \E s \in nears : Cross(v, VecOf(s)) # 0 THEN {} ELSE {s \in nears : \A t \in nears : off(s, v) <= off(t, v)}
        OnSeg(s) ==
             LET a == EA(pP, pS, s) b == EB(pP, pS, s)
                 (* projection close to an end point snaps to that end *)
                 toEnd == \/ r = pS[s][1] \/ r = pS[s][2]
                 pa == LET t == Dot(Sub(b, a), Sub(q, a)) dd == Dot(Sub(b, a), Sub(b, a)) IN
                       \* 4 * |proj - a|^2 < tol^2  <=>  4 t^2 < tol^2 dd
                       IF tol = 0 THEN t = 0 ELSE 4 * t * t < tol * tol * dd
                 pb == LET t == Dot(Sub(a, b), Sub(q, b)) dd == Dot(Sub(b, a), Sub(b, a)) IN
                       IF tol = 0 THEN t = 0 ELSE 4 * t * t < tol * tol * dd
             IN IF pa \/ pb
                THEN C("endsnap", (pa /\ r = pS[s][1]) \/ (pb /\ r = pS[s][2])) \cup C("nochange", P = pP /\ S = pS)
                ELSE C("splitpoint", r \notin DOMAIN pP /\ DOMAIN P = DOMAIN pP \cup {r} /\ IsProj(P[r], q, a, b))
                     \cup C("splitsegs", LET fresh == DOMAIN S \ DOMAIN pS IN
                            /\ Cardinality(fresh) = 1 /\ DOMAIN pS \subseteq DOMAIN S
                            /\ \A t \in DOMAIN pS \ {s} : S[t] = pS[t]
                            /\ \A f \in fresh : {S[s], S[f]} = {<<pS[s][1], r>>, <<r, pS[s][2]>>})
                     \cup C("notfree", st.pts[r][3] = 0)
    IN IF r \notin DOMAIN P THEN {"presult"}
       ELSE C("ptskept", PtsKept(pP, P)) \cup
       (IF nearp # {} THEN C("snappoint", r \in nearp) \cup C("nochange", P = pP /\ S = pS)
        ELSE IF nears = {} THEN
             C("newpoint", r \notin DOMAIN pP /\ DOMAIN P = DOMAIN pP \cup {r})
             \cup C("exactxy", P[r] = q) \cup C("segsame", S = pS)
             \cup C("isfree", st.pts[r][3] # 0)
        ELSE IF best # {} THEN
             (IF \E s \in best : OnSeg(s) = {} THEN {} ELSE OnSeg(CHOOSE s \in best : TRUE))
        ELSE (* several candidates: the point lands on a segment near the query *)
             C("multisnap", \/ r \in DOMAIN pP
                            \/ \E s \in nears : OnSegment(P[r], EA(pP, pS, s), EB(pP, pS, s))))

(***************************************************************************)
(* P07  deletion                                                           *)
(***************************************************************************)
DeleteBad(prev, e, st, P, S) ==
    LET pP == PtMap(prev) pS == SegMap(prev) IN
    CASE e.op = "delete_segment" ->
           C("delpts", P = pP)
           \cup C("delseg", S = Restrict(pS, DOMAIN pS \ {e.args[1]}))
      [] e.op = "delete_point" ->
           C("delpts", P = Restrict(pP, DOMAIN pP \ {e.args[1]}))
           \cup C("delseg", S = Restrict(pS, {s \in DOMAIN pS : e.args[1] \notin {pS[s][1], pS[s][2]}}))
      [] e.op = "join" ->
           LET s0 == e.args[1] s1 == e.args[2] p == e.args[3]
               far == ({pS[s0][1], pS[s0][2]} \cup {pS[s1][1], pS[s1][2]}) \ {p}
           IN C("joinpts", P = Restrict(pP, DOMAIN pP \ {p}))
              \cup C("joinsegs", /\ DOMAIN S = DOMAIN pS \ {s1}
                                 /\ \A t \in DOMAIN S \ {s0} : S[t] = pS[t]
                                 /\ {S[s0][1], S[s0][2]} = far)
      [] OTHER -> {}

(***************************************************************************)
(* P09  attributes                                                         *)
(***************************************************************************)
PtAttr(st, p) == st.pts[p][4]
PolyAttr(st, g) == st.polys[g][6]

(* a dart of (P,S) that lies along an older segment: the older dart with   *)
(* the same left side, or <<0, 0>>                                         *)
OldDart(pP, pS, P, S, d) ==
    LET c == {t \in DOMAIN pS : Within(P, S, d[1], EA(pP, pS, t), EB(pP, pS, t))} IN
    IF c = {} THEN <<0, 0>>
    ELSE LET t == CHOOSE t \in c : TRUE
             same == Dot(Sub(EB(pP, pS, t), EA(pP, pS, t)), Sub(EB(P, S, d[1]), EA(P, S, d[1]))) > 0
         IN <<t, IF same THEN d[2] ELSE 1 - d[2]>>

AttrBad(prev, pF, e, st, F, P, S) ==
    LET pP == PtMap(prev) pS == SegMap(prev) IN
    CASE e.op = "set_attr" ->
           LET k == e.args[1] i == e.args[2] a == e.args[3] IN
           C("setpt", \A p \in DOMAIN P : PtAttr(st, p) = IF k = 0 /\ p = i THEN a ELSE PtAttr(prev, p))
           \cup C("setseg", \A s \in DOMAIN S : SegAttr(st, s) = IF k = 1 /\ s = i THEN a ELSE SegAttr(prev, s))
           \cup C("setpoly", \A g \in PolysOf(st) : PolyAttr(st, g) = IF k = 2 /\ g = i THEN a ELSE PolyAttr(prev, g))
           \cup C("setonly", P = pP /\ S = pS)
      [] e.op \in Inserting ->
           C("ptattr", \A p \in DOMAIN P : PtAttr(st, p) = IF p \in DOMAIN pP THEN PtAttr(prev, p) ELSE 0)
           \cup C("segattr", \A s \in DOMAIN S :
                  LET o == OldDart(pP, pS, P, S, <<s, 1>>)[1] IN
                  SegAttr(st, s) = IF o = 0 THEN 0 ELSE SegAttr(prev, o))
           \cup C("polyattr", \A w \in F.pos :
                  LET olds == {OldDart(pP, pS, P, S, w[i]) : i \in DOMAIN w} \ {<<0, 0>>} IN
                  \A o \in olds : PolyAttr(st, FacePoly(st, w)) = PolyAttr(prev, PolyOfDart(prev, o)))
           \cup C("outerattr", PolyAttr(st, st.outer) = PolyAttr(prev, prev.outer))
      [] e.op \in Deleting \cup {"join"} ->
           C("ptattr", \A p \in DOMAIN P : PtAttr(st, p) = PtAttr(prev, p))
           \cup C("segattr", \A s \in DOMAIN S : SegAttr(st, s) = SegAttr(prev, s))
           \cup C("polyattr", \A g \in PolysOf(st) : PolyAttr(st, g) = PolyAttr(prev, g))
      [] OTHER -> {}

(***************************************************************************)
(* P10  moving points                                                      *)
(***************************************************************************)
(* open segments cross properly *)
ProperCross(a, b, c, d) ==
    /\ SgnOf(Cross(Sub(b, a), Sub(c, a))) * SgnOf(Cross(Sub(b, a), Sub(d, a))) < 0
    /\ SgnOf(Cross(Sub(d, c), Sub(a, c))) * SgnOf(Cross(Sub(d, c), Sub(b, c))) < 0

(* darts of wire w in the observed state *)
WireDarts(st, S, w) == {d \in DartsOf(S) : WireOf(st, d) = w}
RECURSIVE DownWires(_, _, _)
DownWires(st, done, todo) ==
    IF todo = {} THEN done
    ELSE DownWires(st, done \cup todo,
                   (UNION {SetOf(st.wires[w][5]) : w \in todo}) \ (done \cup todo))

MoveBad(prev, e, st, F, P, S) ==
    LET pP == PtMap(prev) pS == SegMap(prev) IN
    CASE e.op = "move" ->
           LET M == SetOf(e.args[1]) v == <<e.args[2], e.args[3]>> IN
           C("moved", P = [p \in DOMAIN pP |-> IF p \in M THEN Add(pP[p], v) ELSE pP[p]])
           \cup C("moveseg", S = pS)
           \cup C("movevec", \A s \in DOMAIN S : st.segs[s][10] = Sub(EB(P, S, s), EA(P, S, s)))
      [] e.op = "check" ->
           LET M == SetOf(e.args[1]) v == <<e.args[2], e.args[3]>>
               moving == {s \in DOMAIN pS : pS[s][1] \in M \/ pS[s][2] \in M}
               polys == {PolyOfDart(prev, <<s, 0>>) : s \in moving} \cup {PolyOfDart(prev, <<s, 1>>) : s \in moving}
               wires == DownWires(prev, {}, {OuterWire(prev, g) : g \in polys})
               env == {s \in DOMAIN pS : (WireOf(prev, <<s, 0>>) \in wires \/ WireOf(prev, <<s, 1>>) \in wires)} \ moving
               newpos(p) == IF p \in M THEN Add(pP[p], v) ELSE pP[p]
               hit == \E f \in env :
                        LET c == EA(pP, pS, f) d == EB(pP, pS, f) IN
                        \/ \E p \in M : ProperCross(pP[p], newpos(p), c, d)
                        \/ \E s \in moving : ProperCross(newpos(pS[s][1]), newpos(pS[s][2]), c, d)
           IN C("checkstate", P = pP /\ S = pS)
              \cup C("collision", hit => e.res = <<0>>)
              \cup C("nocollision", ~hit => e.res = <<1>>)
              \cup C("checkreport", Chg(e) = <<"shape", polys, 0>>)
      [] OTHER -> {}

(***************************************************************************)
(* P08  undo / redo                                                        *)
(* The recorded history is a sequence of states indexed by the number of   *)
(* recorded actions; undo and redo move along it, a new action truncates.  *)
(***************************************************************************)
Canon(st, F) ==
    [ pts   |-> [p \in Ids(st.pts)  |-> <<st.pts[p][1], st.pts[p][2], st.pts[p][3], st.pts[p][4]>>],
      segs  |-> [s \in Ids(st.segs) |-> <<st.segs[s][1], st.segs[s][2], st.segs[s][9]>>],
      polys |-> [g \in Ids(st.polys) |-> <<st.polys[g][6],
                    {SetOf(w) : w \in {x \in F.pos : FacePoly(st, x) = g}}>>] ]

(* e.cnt = <<undo count, redo count>> after the call *)
NextHist(h, e, st, F) ==
    LET k == e.cnt[1] c == Canon(st, F) IN
    IF e.op = "reset" THEN (0 :> c)
    ELSE IF e.op \in {"undo", "redo"} THEN (k :> c) @@ h
    ELSE (* new action(s): everything above the old position is gone *)
         (k :> c) @@ Restrict(h, {i \in DOMAIN h : i <= e.from})

HistBad(h, e, st, F) ==
    LET k == e.cnt[1] c == Canon(st, F) IN
    IF e.op = "reset" THEN {}
    ELSE IF e.op = "undo" THEN
         C("undostep", k = e.from - (IF e.args = <<>> THEN 0 ELSE e.args[1]))
         \cup (IF k \in DOMAIN h THEN C("undopts", h[k].pts = c.pts) \cup C("undosegs", h[k].segs = c.segs)
                                      \cup C("undopolys", h[k].polys = c.polys) ELSE {})
    ELSE IF e.op = "redo" THEN
         C("redostep", k = e.from + (IF e.args = <<>> THEN 0 ELSE e.args[1]))
         \cup (IF k \in DOMAIN h THEN C("redopts", h[k].pts = c.pts) \cup C("redosegs", h[k].segs = c.segs)
                                      \cup C("redopolys", h[k].polys = c.polys) ELSE {})
    ELSE C("recorded", k >= e.from)

(***************************************************************************)
StepBad(prop, prev, pF, e, st, F, P, S) ==
    CASE prop = "P02" -> IdentityBad(prev, pF, e, st, F)
      [] prop = "P04" -> ChangeBad(prev, pF, e, st, F, P, S)
      [] prop = "P05" -> InsertBad(prev, e, st, P, S)
      [] prop = "P06" -> SnapBad(prev, pF, e, st, P, S)
      [] prop = "P07" -> DeleteBad(prev, e, st, P, S)
      [] prop = "P09" -> AttrBad(prev, pF, e, st, F, P, S)
      [] prop = "P10" -> MoveBad(prev, e, st, F, P, S) \cup SnapBad(prev, pF, e, st, P, S)
                           \cup InsertBad(prev, e, st, P, S)
      [] OTHER -> {}
=============================================================================
