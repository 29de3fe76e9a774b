----------------------------- MODULE MshDesign ------------------------------
(* All small meshes: reading back what is written gives the mesh again, in  *)
(* any order of the sections. The meshes are printed and written and read   *)
(* by the real code.                                                        *)
EXTENDS MshFormat, Json
CONSTANTS NodeIds, ElemIds, Names, MaxSize, PRINT
VARIABLES mesh
Coords == {<<"0", "0", "0">>, <<"1", "-2.5", "1e-09">>}
Tags == {<<>>, <<"7">>, <<"7", "3">>}
Shapes == {<<"15", 1>>, <<"1", 2>>, <<"2", 3>>}
IntTab == [s \in {ToString(i) : i \in 0..9} |-> CHOOSE i \in 0..9 : ToString(i) = s]
IntOf(s) == IF s \in DOMAIN IntTab THEN IntTab[s] ELSE -1

Init == mesh = EmptyMesh
Size == Cardinality(DOMAIN mesh.nodes) + Cardinality(DOMAIN mesh.elems) + Cardinality(DOMAIN mesh.phys)
Next == /\ Size < MaxSize
        /\ \/ \E i \in NodeIds \ DOMAIN mesh.nodes, c \in Coords : mesh' = [mesh EXCEPT !.nodes = Put(@, i, c)]
           \/ \E i \in ElemIds \ DOMAIN mesh.elems, t \in Tags, s \in Shapes :
                 mesh' = [mesh EXCEPT !.elems = Put(@, i, <<s[1], t, [k \in 1..s[2] |-> ToString(k)]>>)]
           \/ \E n \in Names \ DOMAIN mesh.phys, d \in {"1", "2"} : mesh' = [mesh EXCEPT !.phys = Put(@, n, <<"5", d>>)]
Spec == Init /\ [][Next]_mesh
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Ordered(S \ {x})
W == WriteMesh(mesh, Ordered(DOMAIN mesh.nodes), Ordered(DOMAIN mesh.elems), Ordered(DOMAIN mesh.phys), ToString)
RoundTrip == LET r == ReadFile(W, IntOf) IN r.ok /\ ~r.miscount /\ r.mesh = mesh
Json(m) == [nodes |-> [i \in DOMAIN m.nodes |-> m.nodes[i]], elems |-> m.elems, phys |-> m.phys]
Emit == ~PRINT \/ PrintT("@@T " \o ToJson(Json(mesh)))
EmitInv == Emit
=============================================================================
