----------------------------- MODULE HealDesign -----------------------------
(* All sequences of mesh modifications on a few nodes.                      *)
EXTENDS HealCore, Json
CONSTANTS MaxOps, MaxNodes, PRINT
VARIABLES mesh, prog
View == mesh
Start == [nodes |-> [n \in {1, 2, 3, 5} |-> <<1024 * n, IF n = 5 THEN 1024 ELSE 0, 512 * (n % 2)>>],
          els |-> (3 :> <<2, <<7, 1>>, <<1, 2, 3>>>>) @@ (4 :> <<2, <<8, 2>>, <<3, 2, 5>>>>) @@ (9 :> <<1, <<9, 3>>, <<1, 3>>>>),
          maxel |-> 9, maxnode |-> 5]
Init == mesh = Start /\ prog = <<>>
Op(o) == prog' = Append(prog, o)
N == DOMAIN mesh.nodes
Lists == {s \in {<<a>> : a \in N} \cup {<<a, b>> : a \in N, b \in N} \cup {<<a, b, c>> : a \in N, b \in N, c \in N} :
             Cardinality(Rng(s)) = Len(s)}
TypeOf(s) == CASE Len(s) = 1 -> 15 [] Len(s) = 2 -> 1 [] OTHER -> 2
Next == /\ Len(prog) < MaxOps
        /\ \/ \E s \in Lists : LET e == <<TypeOf(s), <<5, 5>>, s>> IN mesh' = AddElement(mesh, e) /\ Op(<<"add_element", e>>)
           \/ \E i \in DOMAIN mesh.els : mesh' = RemoveElement(mesh, i) /\ Op(<<"remove_element", i>>)
           \/ Cardinality(N) < MaxNodes /\ mesh' = AddNode(mesh, <<512, 512, 1024>>) /\ Op(<<"add_node", <<512, 512, 1024>>>>)
           \/ \E n \in N : With(mesh, n) = {} /\ mesh' = RemoveNode(mesh, n) /\ Op(<<"remove_node", n>>)
           \/ \E n \in N : mesh' = MoveNode(mesh, n, <<0, 2048, 0>>) /\ Op(<<"move_node", n, <<0, 2048, 0>>>>)
           \/ \E a, b \in N : a # b /\ mesh' = Merge(mesh, a, b) /\ Op(<<"merge_node", a, b>>)
Spec == Init /\ [][Next]_<<mesh, prog>>
ValidInv == Valid(mesh)
(* no duplicates arise: the classes of elements stay distinct *)
Distinct == \A i, j \in DOMAIN mesh.els : i # j => Class(mesh.els[i]) # Class(mesh.els[j])
Regular == \A i \in DOMAIN mesh.els : Cardinality(Rng(mesh.els[i][3])) = Len(mesh.els[i][3])
MergeStep == [][prog' # prog /\ prog'[Len(prog')][1] = "merge_node" =>
                  MergeBad(mesh, mesh', prog'[Len(prog')][2], prog'[Len(prog')][3]) = {}]_<<mesh, prog>>
(* ids of removed objects never come back *)
FreshStep == [][\A i \in DOMAIN mesh'.els \ DOMAIN mesh.els : i > mesh.maxel]_<<mesh, prog>>
Emit == ~PRINT \/ PrintT("@@T " \o ToJson(prog'))
=============================================================================
