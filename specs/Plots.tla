-------------------------------- MODULE Plots -------------------------------
(***************************************************************************)
(* What the plotting functions draw. A request is a record with the kind   *)
(* and the geometry; an item of a figure is its kind ("lines", "markers",  *)
(* "surface", "markers3"), its shape and points of it. The canvas collects *)
(* items until they are shown, then it is empty and a new number begins.   *)
(***************************************************************************)
EXTENDS Splines
NoReq == [kind |-> "", X |-> <<>>, Y |-> <<>>, Z |-> <<>>, n |-> <<>>, deg |-> <<>>, ku |-> <<>>, kv |-> <<>>, P |-> <<>>, rat |-> FALSE,
          quad |-> <<>>]
Flat2(r) == r.kind \in {"lines", "markers", "curve", "curve poles"}
Draws(r) ==
  CASE r.kind \in {"lines", "curve"} -> "lines"
    [] r.kind \in {"markers", "curve poles"} -> "markers"
    [] r.kind \in {"surface", "spline", "grid"} -> "surface"
    [] OTHER -> "markers3"
(* ---- the canvas *)
Empty == [d2 |-> <<>>, d3 |-> <<>>, n |-> 0]
Put(c, r) == IF Flat2(r) THEN [c EXCEPT !.d2 = Append(@, r)] ELSE [c EXCEPT !.d3 = Append(@, r)]
PutAll(c, rs) == FoldLeft(Put, c, rs)
Shown(c) == {<<d, c.n>> : d \in (IF c.d3 # <<>> THEN {3} ELSE {}) \cup (IF c.d2 # <<>> THEN {2} ELSE {})}
Clear(c) == [d2 |-> <<>>, d3 |-> <<>>, n |-> c.n + 1]
(* ---- points of a request *)
Par(K, k, n) == Add(Start(K), Mul(Q(k, n - 1), Sub(End(K), Start(K))))
VI(a) == [d \in DOMAIN a |-> I(a[d])]
Bilinear(q, u, v) ==
  LET m(t) == Sub(One, t) w == <<Mul(m(u), v), Mul(m(u), m(v)), Mul(u, m(v)), Mul(u, v)>>
  IN [d \in 1..2 |-> Sum([k \in 1..4 |-> Mul(w[k], I(q[k][d]))])]
OnSurface(r, u, v) ==
  LET s == SurfaceAt(r.ku, r.deg[1], r.kv, r.deg[2], r.P, r.rat, u, v)
  IN IF r.quad = <<>> THEN s ELSE Bilinear(r.quad, u, v) \o s
FlatP(P) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, P)
(* lengths of the directions *)
Shape(r) ==
  CASE r.kind = "curve" -> r.n
    [] r.kind \in {"curve poles"} -> <<Len(r.P)>>
    [] r.kind = "surface poles" -> <<Len(r.P) * Len(r.P[1])>>
    [] r.kind \in {"spline", "grid"} -> r.n
    [] r.kind = "surface" -> <<Len(r.X), Len(r.X[1])>>
    [] OTHER -> <<Len(r.X)>>
(* the point with the index (from zero) *)
At(r, ix) ==
  LET k == ix[1] + 1 IN
  CASE r.kind = "lines" \/ r.kind = "markers" -> VI(<<r.X[k], r.Y[k]>>)
    [] r.kind = "markers3" -> VI(<<r.X[k], r.Y[k], r.Z[k]>>)
    [] r.kind = "surface" -> VI(<<r.X[k][ix[2] + 1], r.Y[k][ix[2] + 1], r.Z[k][ix[2] + 1]>>)
    [] r.kind = "curve" -> CurveAt(r.ku, r.deg[1], r.P, r.rat, Par(r.ku, ix[1], r.n[1]))
    [] r.kind = "curve poles" -> SubSeq(VI(r.P[k]), 1, 2)
    [] r.kind = "surface poles" -> SubSeq(VI(FlatP(r.P)[k]), 1, 3)
    [] r.kind = "spline" -> OnSurface(r, Par(r.ku, ix[1], r.n[1]), Par(r.kv, ix[2], r.n[2]))
    [] OTHER -> LET u == Q(ix[1], r.n[1] - 1) v == Q(ix[2], r.n[2] - 1) IN <<u, v, (OnSurface(r, u, v))[3]>>
Swap(x) == <<x[2], x[1]>>
Ixs(r) == LET s == Shape(r) IN IF Len(s) = 1 THEN {<<i>> : i \in 0..(s[1] - 1)} ELSE {<<i, j>> : i \in 0..(s[1] - 1), j \in 0..(s[2] - 1)}
(* the net of a surface may be stored by rows or by columns; the order of markers is free *)
Same(r, it) ==
  /\ it.k = Draws(r)
  /\ IF it.bag THEN {it.s[k][2] : k \in DOMAIN it.s} = {At(r, ix) : ix \in Ixs(r)}
     ELSE CASE it.k = "surface" ->
                 \/ it.shape = Shape(r) /\ \A k \in DOMAIN it.s : it.s[k][2] = At(r, it.s[k][1])
                 \/ it.shape = Swap(Shape(r)) /\ \A k \in DOMAIN it.s : it.s[k][2] = At(r, Swap(it.s[k][1]))
            [] it.k = "lines" -> it.shape = Shape(r) /\ \A k \in DOMAIN it.s : it.s[k][2] = At(r, it.s[k][1])
            [] OTHER -> /\ it.shape = Shape(r)
                        /\ \E A \in {TLCEval([ix \in Ixs(r) |-> At(r, ix)])} :
                             \A p \in {A[ix] : ix \in DOMAIN A} \cup {it.s[k][2] : k \in DOMAIN it.s} :
                               Cardinality({ix \in DOMAIN A : A[ix] = p}) = Cardinality({k \in DOMAIN it.s : it.s[k][2] = p})
(* ---- pictures of a decomposition: filled polygons, lines of segments, markers of points *)
Cyc(c, k) == [j \in DOMAIN c |-> c[((j + k - 2) % Len(c)) + 1]]
Turned(a, b) == Len(a) = Len(b) /\ \E k \in DOMAIN a : Cyc(a, k) = b \/ Cyc(Reverse(a), k) = b
Of(ds, kind) == SelectSeq(ds, LAMBDA x : x.k = kind)
Fills(polys, ds) ==
  LET f == Of(ds, "fill") B == {k \in DOMAIN polys : ~polys[k].root} IN
  C("polygons", \E m \in {TLCEval([b \in B |-> {j \in DOMAIN f : Turned(polys[b].cyc, f[j].p)}])} :
                  /\ Len(f) = Cardinality(B) /\ \A b \in B : Cardinality(m[b]) = 1)
  \cup C("covered", \A b \in B : \A a \in B : polys[a].id = polys[b].par =>
            \A i, j \in DOMAIN f : Turned(polys[a].cyc, f[i].p) /\ Turned(polys[b].cyc, f[j].p) => i < j)
Bag(s) == [x \in Rng(s) |-> Cardinality({k \in DOMAIN s : s[k] = x})]
Ends(s) == [k \in DOMAIN s |-> Rng(s[k])]
Lines(segs, ds) == LET f == Of(ds, "lines") IN C("segments", Bag(Ends(segs)) = Bag([k \in DOMAIN f |-> Rng(f[k].p)]) /\ \A k \in DOMAIN f : Len(f[k].p) = 2)
Marks(lists, ds) == LET f == Of(ds, "markers") w == SelectSeq(lists, LAMBDA x : x # <<>>)
                        g == SelectSeq([k \in DOMAIN f |-> f[k].p], LAMBDA x : x # <<>>) IN
  C("points", Len(g) = Len(w) /\ \A k \in DOMAIN w : Bag(w[k]) = Bag(g[k]))
=============================================================================
