---------------------------- MODULE QualityDesign ----------------------------
(* Every triangle and tetrahedron of a lattice: laws of the quality measures, and the shapes to replay.  *)
EXTENDS Quality, Json
CONSTANTS Side, PRINT
VARIABLES p
Pts == {<<x, y, z>> : x \in 0..Side, y \in 0..Side, z \in 0..Side}
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
(* the first node is the least; shapes up to shifts: the box touches the coordinate planes *)
Init == p = <<>>
Next == Len(p) < 4 /\ \E q \in Pts : (IF p = <<>> THEN TRUE ELSE Less(p[Len(p)], q)) /\ p' = Append(p, q)
Spec == Init /\ [][Next]_p
Touching == \A k \in 1..3 : \E i \in DOMAIN p : p[i][k] = 0
Swap(q, i, j) == [k \in DOMAIN q |-> IF k = i THEN q[j] ELSE IF k = j THEN q[i] ELSE q[k]]
Turn(q) == [k \in DOMAIN q |-> <<Side - q[k][2], q[k][1], q[k][3]>>]
Meet(x, y) == x[1] <= y[2] /\ y[1] <= x[2]
Unit(x) == x[1] <= S + 8
(* within 0..1, zero exactly for degenerate shapes, one for regular ones, the same for any numbering and after a turn *)
TriLaws == Len(p) = 3 =>
    LET g == GammaTri(p)  f == FlowTri3(p)  n == Area4(p[1], p[2], p[3])  e == Edge2(p) IN
    /\ Unit(g) /\ Unit(f) /\ Unit(FlatTri(p)) /\ Unit(EdgeRatio(p))
    /\ (n = 0) = (g[2] = 0) /\ (n = 0) = (f[2] = 0)
    /\ (\A x, y \in DOMAIN e : e[x] = e[y]) => Meet(g, Exact(1)) /\ Meet(f, Exact(1))
    /\ \A q \in {Swap(p, 1, 2), Swap(p, 2, 3), Turn(p)} :
          /\ Meet(GammaTri(q), g) /\ Meet(FlowTri3(q), f) /\ FlatTri(q) = FlatTri(p)
TetLaws == Len(p) = 4 =>
    LET g == GammaTet(p)  f == FlowTet(p)  d == Vol6(p)  e == Edge2(p) IN
    /\ Unit(g) /\ Unit(f) /\ Unit(FlatTet(p))
    /\ (d = 0) = (g[2] = 0) /\ (d = 0) = (f[2] = 0)
    /\ (\A x, y \in DOMAIN e : e[x] = e[y]) => Meet(g, Exact(1)) /\ Meet(f, Exact(1))
    /\ \A q \in {Swap(p, 1, 2), Swap(p, 2, 3), Swap(p, 3, 4)} :
          /\ Vol6(q) = -d /\ Meet(GammaTet(q), g) /\ Meet(FlowTet(q), f) /\ Meet(FlatTet(q), FlatTet(p))
    /\ Vol6(Turn(p)) = d /\ Meet(FlowTet(Turn(p)), f)
Emit == ~PRINT \/ Len(p) < 2 \/ ~Touching \/ PrintT("@@T " \o ToJson(p))
=============================================================================
