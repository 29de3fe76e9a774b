----------------------------- MODULE RepairDesign ----------------------------
(***************************************************************************)
(* Meshes with one flat tetrahedron or one node at an edge, with all       *)
(* combinations of neighbours; the repair keeps volume and area of every   *)
(* region and leaves no edge across which the mesh is not conforming.      *)
(***************************************************************************)
EXTENDS HealCore, Json, SequencesExt
CONSTANTS Kinds, Orders, PRINT
VARIABLES kind, geo, att, perm
vars == <<kind, geo, att, perm>>
Perms == {f \in [1..4 -> 1..4] : {f[i] : i \in 1..4} = 1..4}
(* nodes 1..4 the flat element, 5 above, 6 below *)
Geos(k) ==
    CASE k = "quad" -> {<<<<-6, 0, 0>>, <<6, 0, 0>>, <<0, -6, 0>>, <<0, 6, 0>>, <<0, 0, 8>>, <<1, 1, -6>>>>,
                        <<<<-4, 0, 0>>, <<8, 0, 0>>, <<-1, -6, 0>>, <<1, 6, 0>>, <<1, 0, 6>>, <<2, 1, -7>>>>,
                        <<<<-8, 0, 0>>, <<4, 0, 0>>, <<0, -9, 0>>, <<0, 3, 0>>, <<-1, -1, 5>>, <<0, -2, -8>>>>,
                        <<<<0, -7, 7>>, <<0, 5, -5>>, <<-6, 0, 0>>, <<9, 0, 0>>, <<1, 4, 4>>, <<1, -5, -5>>>>}
      [] k = "tri" -> {<<<<6, -3, -3>>, <<-3, 6, -3>>, <<-3, -3, 6>>, <<0, 0, 0>>, <<4, 4, 4>>, <<-5, -5, -4>>>>,
                       <<<<-6, -4, 0>>, <<8, -4, 0>>, <<0, 8, 0>>, <<1, 0, 0>>, <<1, 1, 6>>, <<0, 0, -7>>>>}
      [] OTHER -> {<<<<0, 0, 0>>, <<-6, 0, 0>>, <<6, 0, 0>>, <<0, 7, 0>>, <<1, 2, 7>>, <<0, 3, -6>>>>,
                   <<<<2, 0, 0>>, <<-4, 0, 0>>, <<8, 0, 0>>, <<1, 6, 0>>, <<1, 1, 6>>, <<3, 2, -7>>>>}
(* elements attached: type, tags, nodes *)
Parts(k) ==
    CASE k = "quad" -> {<<4, <<1, 1>>, <<1, 2, 3, 5>>>>, <<4, <<2, 1>>, <<5, 2, 1, 4>>>>, <<4, <<3, 1>>, <<3, 6, 4, 1>>>>, <<4, <<3, 1>>, <<2, 3, 4, 6>>>>,
                        <<2, <<4, 2>>, <<2, 3, 1>>>>, <<2, <<4, 2>>, <<2, 4, 1>>>>, <<1, <<5, 3>>, <<1, 3>>>>}
      [] k = "tri" -> {<<4, <<1, 1>>, <<1, 6, 3, 2>>>>, <<4, <<2, 1>>, <<1, 2, 4, 5>>>>, <<4, <<2, 1>>, <<2, 3, 5, 4>>>>, <<4, <<2, 1>>, <<4, 3, 1, 5>>>>,
                       <<2, <<4, 2>>, <<1, 3, 2>>>>, <<2, <<4, 2>>, <<4, 1, 2>>>>, <<1, <<5, 3>>, <<3, 1>>>>}
      [] OTHER -> {<<4, <<1, 1>>, <<2, 3, 4, 5>>>>, <<4, <<2, 1>>, <<1, 2, 4, 6>>>>, <<4, <<2, 1>>, <<3, 6, 4, 1>>>>, <<2, <<4, 2>>, <<1, 2, 3>>>>,
                   <<2, <<4, 2>>, <<3, 4, 2>>>>, <<1, <<5, 3>>, <<3, 2>>>>, <<15, <<6, 3>>, <<1>>>>}
Mesh == LET P == SetToSeq(att) IN
    [nodes |-> [n \in 1..6 |-> geo[n]],
     els |-> [i \in 1..(Len(P) + 1) |-> IF i = 1 THEN <<4, <<9, 1>>, perm>> ELSE P[i - 1]],
     maxel |-> Len(P) + 1, maxnode |-> 6]
Defect == IF kind = "edge" THEN <<"edge", <<1, 2, 3>>>> ELSE <<kind, <<1, 2, 3, 4>>>>
Init == /\ kind \in Kinds /\ geo \in Geos(kind) /\ att \in SUBSET Parts(kind)
        /\ perm \in (IF Orders THEN Perms ELSE {<<1, 2, 3, 4>>, <<3, 1, 4, 2>>, <<2, 4, 1, 3>>})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

RECURSIVE SumOver(_, _)
SumOver(f, X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN f[x] + SumOver(f, X \ {x})
Ab(x) == IF x < 0 THEN -x ELSE x
Vol(m, i) == LET e == m.els[i][3]  p(k) == m.nodes[e[k]]
             IN Ab(In3(D3(p(2), p(1)), X3(D3(p(3), p(1)), D3(p(4), p(1)))))
(* area of a triangle seen from above (along the direction of node 5) *)
AreaOf(m, i) == LET e == m.els[i][3]  p(k) == m.nodes[e[k]]
                IN Ab(In3(m.nodes[5], X3(D3(p(2), p(1)), D3(p(3), p(1)))))
Tags == {<<k, 1>> : k \in 1..9} \cup {<<4, 2>>}
Volume(m, t) == LET K == {i \in DOMAIN m.els : m.els[i][1] = 4 /\ m.els[i][2] = t} IN SumOver([i \in K |-> Vol(m, i)], K)
Area(m, t) == LET K == {i \in DOMAIN m.els : m.els[i][1] = 2 /\ m.els[i][2] = t} IN SumOver([i \in K |-> AreaOf(m, i)], K)
Result == CHOOSE x \in Repaired(Mesh, <<Defect>>) : TRUE
Laws == \A m2 \in {TLCEval(Result)} :
    /\ Cardinality(Repaired(Mesh, <<Defect>>)) = 1
    /\ \A t \in Tags : Volume(m2, t) = Volume(Mesh, t)
    \* (a triangle that covers another one is merged with it)
    /\ {<<2, <<4, 2>>, <<1, 3, 2>>>>, <<2, <<4, 2>>, <<4, 1, 2>>>>} \subseteq att \/ Area(m2, <<4, 2>>) = Area(Mesh, <<4, 2>>)
    /\ \A i \in DOMAIN m2.els : Rng(m2.els[i][3]) \subseteq DOMAIN m2.nodes /\ Cardinality(Rng(m2.els[i][3])) = Len(m2.els[i][3])
                                /\ (m2.els[i][1] = 4 => Vol(m2, i) > 0)
    /\ \A n \in DOMAIN m2.nodes : \A k \in 1..3 : m2.nodes[n][k] # 999999
    (* what was split is split everywhere *)
    /\ CASE kind = "quad" -> \A i \in DOMAIN m2.els : ~({1, 2} \subseteq Rng(m2.els[i][3])) /\ ~({3, 4} \subseteq Rng(m2.els[i][3]))
         [] kind = "tri" -> \A i \in DOMAIN m2.els : ~({1, 2, 3} \subseteq Rng(m2.els[i][3]))
         [] OTHER -> \A i \in DOMAIN m2.els : ~({2, 3} \subseteq Rng(m2.els[i][3]))
    /\ \A i \in DOMAIN Mesh.els : (i \in DOMAIN m2.els => m2.els[i] = Mesh.els[i])
Lst(f) == [i \in DOMAIN f |-> <<i, f[i]>>]
Emit == ~PRINT \/ PrintT("@@T " \o ToJson([defects |-> <<Defect>>, nodes |-> Lst(Mesh.nodes), els |-> Lst(Mesh.els)]))
=============================================================================
