------------------------------ MODULE HealCore ------------------------------
(***************************************************************************)
(* The mesh under modification by bgem/gmsh/heal_mesh.py.                  *)
(*   nodes : id -> <<x, y, z>>       els : id -> <<type, tags, node ids>>  *)
(*   maxel, maxnode : largest id ever used                                 *)
(* An element of the same type on the same set of nodes is a duplicate.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[k] : k \in DOMAIN s}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y

Class(e) == <<e[1], Rng(e[3])>>
With(m, n) == {i \in DOMAIN m.els : n \in Rng(m.els[i][3])}
Incidence(m) == [n \in DOMAIN m.nodes |-> With(m, n)]
Same(m, e) == {i \in DOMAIN m.els : Class(m.els[i]) = Class(e)}
Valid(m) == /\ \A i \in DOMAIN m.els : Rng(m.els[i][3]) \subseteq DOMAIN m.nodes
            /\ \A i \in DOMAIN m.els : i <= m.maxel
            /\ \A n \in DOMAIN m.nodes : n <= m.maxnode

AddElement(m, e) == IF Same(m, e) # {} THEN m ELSE [m EXCEPT !.maxel = @ + 1, !.els = Put(@, m.maxel + 1, e)]
RemoveElement(m, i) == [m EXCEPT !.els = Drop(@, {i})]
AddNode(m, x) == [m EXCEPT !.maxnode = @ + 1, !.nodes = Put(@, m.maxnode + 1, x)]
RemoveNode(m, n) == [m EXCEPT !.nodes = Drop(@, {n})]
MoveNode(m, n, x) == [m EXCEPT !.nodes[n] = x]

(* merging a into b: elements with both vanish, in the others b takes the place of a;      *)
(* of elements that become the same one is kept (any of them if none of them had b before) *)
Subst(e, a, b) == <<e[1], e[2], [k \in DOMAIN e[3] |-> IF e[3][k] = a THEN b ELSE e[3][k]]>>
Mid(x, y) == [k \in DOMAIN x |-> (x[k] + y[k]) \div 2]
Untouched(m, a, b) == {i \in DOMAIN m.els : a \notin Rng(m.els[i][3])}
Moved(m, a, b) == {i \in DOMAIN m.els : a \in Rng(m.els[i][3]) /\ b \notin Rng(m.els[i][3])}

(* m2 is a result of merging; a set of names of what is wrong *)
MergeBad(m, m2, a, b) ==
    LET keep == Untouched(m, a, b)
        new == DOMAIN m2.els \ keep
        cand == {Subst(m.els[i], a, b) : i \in Moved(m, a, b)}
        had == {Class(m.els[i]) : i \in keep}
        cls == {Class(c) : c \in cand}
    IN (IF \A i \in keep : i \in DOMAIN m2.els /\ m2.els[i] = m.els[i] THEN {} ELSE {"kept"})
       \cup (IF \A i \in new : i > m.maxel /\ m2.els[i] \in cand THEN {} ELSE {"substituted"})
       \cup (IF \A c \in cls : Cardinality({i \in new : Class(m2.els[i]) = c}) = (IF c \in had THEN 0 ELSE 1)
             THEN {} ELSE {"complete"})
       \cup (IF m2.nodes = Drop([m.nodes EXCEPT ![b] = Mid(m.nodes[a], m.nodes[b])], {a}) THEN {} ELSE {"nodes"})

RECURSIVE AddAll(_, _)
AddAll(m, S) == IF S = {} THEN m ELSE LET c == CHOOSE c \in S : TRUE IN AddAll(AddElement(m, c), S \ {c})
Merge(m, a, b) ==
    LET m1 == [m EXCEPT !.els = Drop(@, {i \in DOMAIN m.els : a \in Rng(m.els[i][3])}),
                        !.nodes = Drop([m.nodes EXCEPT ![b] = Mid(m.nodes[a], m.nodes[b])], {a})]
    IN AddAll(m1, {Subst(m.els[i], a, b) : i \in Moved(m, a, b)})

(*** repair of a single defect ***)
D3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
In3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
X3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
RECURSIVE Gcd3(_, _)
Gcd3(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE Gcd3(b, a % (IF b < 0 THEN -b ELSE b))
(* the shortest integer vector of the direction *)
Prim(n) == LET g == Gcd3(Gcd3(n[1], n[2]), n[3]) IN IF g = 0 THEN n ELSE <<n[1] \div g, n[2] \div g, n[3] \div g>>
(* a + u k/n; 999999 where this is not on the lattice *)
Along(a, u, k, n) == [j \in 1..3 |-> IF (u[j] * k) % n = 0 THEN a[j] + (u[j] * k) \div n ELSE 999999]
Div0(k, n) == IF n < 0 THEN <<-k, -n>> ELSE <<k, n>>
(* the elements with all nodes of S are replaced by parts: x in place of each of the nodes of ends *)
SplitAt(m, F, ends, x) ==
    LET K == {i \in DOMAIN m.els : F \subseteq Rng(m.els[i][3])}
    IN AddAll([m EXCEPT !.els = Drop(@, K)], UNION {{Subst(m.els[i], r, x) : r \in ends} : i \in K})
Without(m, F) == [m EXCEPT !.els = Drop(@, {i \in DOMAIN m.els : F \subseteq Rng(m.els[i][3])})]
(* nodes of q moved along n to the plane of their mean *)
Flatten(m, q, n) ==
    LET c(i) == In3(m.nodes[q[i]], n)
        sum == c(1) + c(2) + c(3) + c(4)
        to(i) == Along(m.nodes[q[i]], n, sum - 4 * c(i), 4 * In3(n, n))
    IN [m EXCEPT !.nodes = [k \in DOMAIN m.nodes |-> IF k \in Rng(q) THEN to(CHOOSE i \in 1..4 : q[i] = k) ELSE m.nodes[k]]]

(* flat tetrahedron, the edges 12 and 34 cross: they are split at the crossing *)
RepairQuad(m, q) ==
    LET n == Prim(X3(D3(m.nodes[q[2]], m.nodes[q[1]]), D3(m.nodes[q[4]], m.nodes[q[3]])))
        m1 == Flatten(Without(m, Rng(q)), q, n)
        p(i) == m1.nodes[q[i]]
        k == In3(X3(D3(p(3), p(1)), D3(p(4), p(3))), n)
        x == m.maxnode + 1
        w == In3(X3(D3(p(2), p(1)), D3(p(4), p(3))), n)
        g == Gcd3(k, w)
        m2 == AddNode(m1, Along(p(1), D3(p(2), p(1)), k \div g, w \div g))
        m3 == SplitAt(m2, {q[1], q[2], q[3]}, {q[1], q[2]}, x)
        m4 == SplitAt(m3, {q[1], q[2], q[4]}, {q[1], q[2]}, x)
        m5 == SplitAt(m4, {q[3], q[4], q[1]}, {q[3], q[4]}, x)
    IN SplitAt(m5, {q[3], q[4], q[2]}, {q[3], q[4]}, x)
(* flat tetrahedron, node 4 within the triangle 123: elements with that triangle are split in three *)
RepairTri(m, q) ==
    LET n == Prim(X3(D3(m.nodes[q[2]], m.nodes[q[1]]), D3(m.nodes[q[3]], m.nodes[q[1]])))
        F == {q[1], q[2], q[3]}
    IN SplitAt(Flatten(Without(m, Rng(q)), q, n), F, F, q[4])
(* node 1 at the edge 23: elements with all three vanish, those with the edge are split in two *)
RepairEdge(m, q) ==
    LET u == D3(m.nodes[q[3]], m.nodes[q[2]])
        k == In3(D3(m.nodes[q[1]], m.nodes[q[2]]), u)
        m1 == MoveNode(Without(m, Rng(q)), q[1], Along(m.nodes[q[2]], u, k, In3(u, u)))
    IN SplitAt(m1, {q[2], q[3]}, {q[2], q[3]}, q[1])
(* elements with a node twice vanish; of each class of equal elements one stays: all the possible results *)
Twice(m) == {i \in DOMAIN m.els : Cardinality(Rng(m.els[i][3])) < Len(m.els[i][3])}
RECURSIVE Unique(_)
Unique(m) == LET P == {i \in DOMAIN m.els : \E j \in DOMAIN m.els \ {i} : Class(m.els[i]) = Class(m.els[j])} IN
             IF P = {} THEN {m} ELSE
             LET i == CHOOSE i \in P : TRUE  G == Same(m, m.els[i])
             IN UNION {Unique([m EXCEPT !.els = Drop(@, G \ {g})]) : g \in G}
RECURSIVE RepairAll(_, _)
RepairAll(m, ds) == IF ds = <<>> THEN m ELSE
    LET d == Head(ds) IN
    RepairAll(CASE d[1] = "quad" -> RepairQuad(m, d[2]) [] d[1] = "tri" -> RepairTri(m, d[2])
                [] d[1] = "edge" -> RepairEdge(m, d[2]) [] OTHER -> m, Tail(ds))
Repaired(m, ds) == {RepairAll(x, ds) : x \in Unique([m EXCEPT !.els = Drop(@, Twice(m))])}
(* the same up to the ids of elements that are new *)
Alike(m0, x, y) ==
    LET old == DOMAIN m0.els IN
    /\ x.nodes = y.nodes
    /\ \A i \in old : (i \in DOMAIN x.els) = (i \in DOMAIN y.els) /\ (i \in DOMAIN x.els => x.els[i] = y.els[i])
    /\ {x.els[i] : i \in DOMAIN x.els \ old} = {y.els[i] : i \in DOMAIN y.els \ old}
    /\ Cardinality(DOMAIN x.els) = Cardinality(DOMAIN y.els)
    /\ \A i \in DOMAIN y.els \ old : i > m0.maxel

(* elements that are there before and after but look different, or are new *)
Changed(m, m2) == {i \in DOMAIN m2.els : \/ i \notin DOMAIN m.els
                                         \/ m.els[i] # m2.els[i]
                                         \/ \E n \in Rng(m2.els[i][3]) : n \notin DOMAIN m.nodes \/ m.nodes[n] # m2.nodes[n]}
=============================================================================
