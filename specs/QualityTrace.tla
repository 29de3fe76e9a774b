----------------------------- MODULE QualityTrace ----------------------------
(***************************************************************************)
(* Recorded measures of elements.  Lines:                                  *)
(*  op "shape": p points; all numbers of the code divided by the scale of  *)
(*     the element and given as integers:                                  *)
(*     vec  edge vectors,  len2  squares of lengths * 1024                 *)
(*     meas: line length^2, triangle 4 A^2, tetrahedron 6 V, * 1024        *)
(*     faces 4 A^2 * 1024, normals (twice the area)                        *)
(*     ratio, flat, gamma, flow, skew (distance), skewn, common: * S       *)
(*  op "stats": els (id, points), tol (times S), flow and gamma: hist, bad;    *)
(*     bins * 2^15; yaml the same from the file                            *)
(***************************************************************************)
EXTENDS Quality, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l
Init == l = 1
C(name, ok) == IF ok THEN {} ELSE {name}
Rng(s) == {s[k] : k \in DOMAIN s}
Near(k, x, t) == k >= x[1] - t /\ k <= x[2] + t
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(s, f) == Len(s) = Cardinality(DOMAIN f) /\
                 \A x \in Rng(s) \cup {f[k] : k \in DOMAIN f} : Count(s, x) = Cardinality({k \in DOMAIN f : f[k] = x})

Cube(k) == LET a == <<IF k > 0 THEN k - 1 ELSE 0, k + 1>> IN MulV(MulV(a, a), a)
Meets(x, y, t) == x[1] <= y[2] + t /\ y[1] <= x[2] + t

(* every pair of nodes is joined by one vector *)
Vectors(p, v) == /\ Len(v) = Cardinality(Pairs(Len(p)))
                 /\ \A x \in Pairs(Len(p)) : LET d == Sub3(p[x[2]], p[x[1]]) IN
                       Count(v, d) + (IF d = <<0, 0, 0>> THEN 0 ELSE Count(v, Mul3(-1, d)))
                       = Cardinality({y \in Pairs(Len(p)) : Sub3(p[y[2]], p[y[1]]) \in {d, Mul3(-1, d)}})
(* vectors of the faces, all to the same side: closed, each belongs to a face *)
Normals(p, v) ==
    LET n(i) == LET o == Others(i) IN Cross(Sub3(p[o[2]], p[o[1]]), Sub3(p[o[3]], p[o[1]]))
        out(i) == IF Dot(n(i), Sub3(p[i], p[Others(i)[1]])) <= 0 THEN n(i) ELSE Mul3(-1, n(i))
    IN /\ Len(v) = 4
       /\ Add3(Add3(v[1], v[2]), Add3(v[3], v[4])) = <<0, 0, 0>>
       /\ IF Vol6(p) = 0 THEN \A k \in 1..4 : \E i \in 1..4 : v[k] \in {n(i), Mul3(-1, n(i))}
          ELSE \E s \in {1, -1} : SameBag(v, [i \in 1..4 |-> Mul3(s, out(i))])

(* distance of the lines 1 2 and 3 4 and their common normal *)
Skew(p, e) ==
    LET a == Sub3(p[2], p[1])  b == Sub3(p[4], p[3])  n == Norm2(Cross(a, b))
    IN IF n = 0 THEN {} ELSE
       C("skew", Near(Abs(e.skew), DivV(Exact(Abs(Vol6(p))), SqrtI(n)), 2)
                 /\ Abs(Dot(e.skewn, a)) <= 8 /\ Abs(Dot(e.skewn, b)) <= 8
                 /\ Abs(Dot(e.skewn, Sub3(p[1], p[3])) - e.skew) <= 8)
(* of all directions the common normal (in multiples of 1/1024) is closest to orthogonal to the edges *)
Dirs == {d \in (-1..1) \X (-1..1) \X (-1..1) : d # <<0, 0, 0>>}
RECURSIVE SumSq(_, _, _)
SumSq(p, d, X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE
                                            k == Dot(d, Sub3(p[x[2]], p[x[1]])) IN k * k + SumSq(p, d, X \ {x})
Common(p, e) ==
    LET m == e.common  mine == SumSq(p, m, Pairs(4)) IN
    C("common", Abs(Norm2(m) - 1048576) <= 6000 /\
                \A d \in Dirs : mine <= 400000 + (SumSq(p, d, Pairs(4)) * (1048576 \div Norm2(d))))

Shape(p, e) ==
    LET n == Len(p) IN
    C("lengths", SameBag(e.len2, [x \in Pairs(n) |-> 1024 * Edge2(p)[x]]))
    \cup C("vectors", Vectors(p, e.vec))
    \cup C("measure", e.meas = 1024 * (CASE n = 2 -> Norm2(Sub3(p[2], p[1])) [] n = 3 -> Area4(p[1], p[2], p[3]) [] OTHER -> Vol6(p)))
    \cup C("ratio", Near(e.ratio, EdgeRatio(p), 2))
    \cup (IF n = 3 THEN C("flat", Near(e.flat, FlatTri(p), 2)) \cup C("gamma", Near(e.gamma, GammaTri(p), 2))
                        \cup C("flow", Meets(Cube(e.flow), FlowTri3(p), 2)) ELSE {})
    \cup (IF n = 4 THEN C("flat", Near(e.flat, FlatTet(p), 2)) \cup C("gamma", Near(e.gamma, GammaTet(p), 2))
                        \cup C("flow", Near(e.flow, FlowTet(p), 2))
                        \cup C("faces", SameBag(e.faces, [i \in 1..4 |-> 1024 * Face4(p)[i]]))
                        \cup C("normals", Normals(p, e.normals)) \cup Skew(p, e) \cup Common(p, e) ELSE {})

(* an element with quality q (power w of it) in an interval: is it below t/S for sure, or perhaps *)
RECURSIVE SumTo(_, _)
SumTo(h, k) == IF k = 0 THEN 0 ELSE h[k] + SumTo(h, k - 1)
Below(q, w, k) == LET s == w * (16 - k) IN            \* threshold 2^(k-16)
    [sure |-> IF q[2] = 0 THEN TRUE ELSE IF s > 18 THEN FALSE ELSE (q[2] + 1) * 2 ^ s < S,
     may |-> IF s > 12 THEN q[1] <= 1 ELSE (q[1] - 1) * 2 ^ s < S]
UpTo(q, w, t) == LET c == IF w = 1 THEN <<t, t + 1>> ELSE MulV(MulV(<<t, t + 1>>, <<t, t + 1>>), <<t, t + 1>>)
                 IN [sure |-> q[2] + 1 < c[1] \/ (q[2] = 0 /\ c[1] >= 0), may |-> q[1] - 1 <= c[2]]
Of(p, which) == IF Len(p) = 3 THEN (IF which = "gamma" THEN <<GammaTri(p), 1>> ELSE <<FlowTri3(p), 3>>)
                ELSE <<(IF which = "gamma" THEN GammaTet(p) ELSE FlowTet(p)), 1>>
Hist(e, which, h, bad) ==
    LET K == {k \in DOMAIN e.els : Len(e.els[k][2]) > 2} IN
    UNION {
      C(which \o "_histogram", Len(h) = 17 /\ SumTo(h, 17) = Cardinality(K) /\ (\A k \in 1..17 : h[k] >= 0) /\
          \A k \in 1..16 : /\ SumTo(h, k) >= Cardinality({i \in K : Below(q[i][1], q[i][2], k).sure})
                           /\ SumTo(h, k) <= Cardinality({i \in K : Below(q[i][1], q[i][2], k).may}))
      \cup C(which \o "_bad", /\ Cardinality(Rng(bad)) = Len(bad)
                              /\ \A i \in K : /\ UpTo(q[i][1], q[i][2], e.tol).sure => e.els[i][1] \in Rng(bad)
                                              /\ e.els[i][1] \in Rng(bad) => UpTo(q[i][1], q[i][2], e.tol).may
                              /\ Rng(bad) \subseteq {e.els[i][1] : i \in K})
      : q \in {TLCEval([i \in K |-> Of(e.els[i][2], which)])}}
Stats(e) ==
    Hist(e, "gamma", e.gamma.hist, e.gamma.bad) \cup Hist(e, "flow", e.flow.hist, e.flow.bad)
    \cup C("bins", e.bins = [k \in 1..17 |-> IF k = 17 THEN -1 ELSE 2 ^ (k - 1)])
    \cup C("file", e.yaml = <<>> \/ (/\ e.yaml[1] = e.gamma /\ e.yaml[2] = e.flow /\ e.yaml[3] = e.bins /\ e.yaml[4] = e.bins
                                     /\ e.yaml[5] = e.tols /\ e.yaml[6] = e.tols /\ e.yaml[7] = 2))

Bad(e) == IF e.op = "driver" \/ e.exc # "" THEN {"exception"}
          ELSE IF e.op = "shape" THEN Shape(e.p, e) ELSE Stats(e)
Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args,
                                           exc |-> e.exc, clauses |-> bad]))
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E e \in {Trace[l]} : \E bad \in {TLCEval(Bad(e))} : IF bad = {} THEN TRUE ELSE Report(e, bad)
Spec == Init /\ [][Step]_l
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
