------------------------------ MODULE HealTrace -----------------------------
(***************************************************************************)
(* Recorded calls of HealMesh.  Line: op, args, exc, res, and after the    *)
(* call: nodes, els (lists), adj (list of node, elements), modif           *)
(*  op "new" : state only; "heal" : whole healing, with                    *)
(*     tol2 (square of the node tolerance, scaled), gam (id, quality of    *)
(*     each element before), gam2 (after), gtol, gaveup                    *)
(*  op "repair" : healing of a mesh with known defects: list of <<kind,     *)
(*     nodes>>, kind quad, tri, edge, merge (alone)                        *)
(* PROP G03: primitive modifications, G04: healing                         *)
(***************************************************************************)
EXTENDS HealCore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP == IOEnv.PROP
VARIABLES l, mesh, good
Empty == [nodes |-> <<>>, els |-> <<>>, maxel |-> 0, maxnode |-> 0]
Init == l = 1 /\ mesh = Empty /\ good = FALSE
C(name, ok) == IF ok THEN {} ELSE {name}

FnOf(L) == [k \in {L[i][1] : i \in DOMAIN L} |-> L[CHOOSE i \in DOMAIN L : L[i][1] = k][2]]
Nodes(e) == FnOf(e.nodes)
Els(e) == FnOf([i \in DOMAIN e.els |-> <<e.els[i][1], Tail(e.els[i])>>])
State(e) == [nodes |-> TLCEval(Nodes(e)), els |-> TLCEval(Els(e)), maxel |-> 0, maxnode |-> 0]
Adj(e) == FnOf([i \in DOMAIN e.adj |-> <<e.adj[i][1], Rng(e.adj[i][2])>>])

(* expected mesh of the exact operations *)
Expect(m, e) ==
    CASE e.op = "add_element" -> AddElement(m, e.args[1])
      [] e.op = "remove_element" -> RemoveElement(m, e.args[1])
      [] e.op = "add_node" -> AddNode(m, e.args[1])
      [] e.op = "remove_node" -> RemoveNode(m, e.args[1])
      [] e.op = "move_node" -> MoveNode(m, e.args[1], e.args[2])
      [] OTHER -> m

Structure(m2, e) ==
    UNION {C("adjacency", \A n \in DOMAIN m2.nodes : (IF n \in DOMAIN A THEN A[n] ELSE {}) = With(m2, n))
           \cup C("stale", \A n \in DOMAIN A \ DOMAIN m2.nodes : A[n] = {})
           \cup C("dangling", \A i \in DOMAIN m2.els : Rng(m2.els[i][3]) \subseteq DOMAIN m2.nodes)
           : A \in {TLCEval(Adj(e))}}

Primitive(m, m2, e) ==
    (IF e.op = "merge_node" THEN MergeBad(m, m2, e.args[1], e.args[2])
     ELSE UNION {C("elements", x.els = m2.els) \cup C("nodes", x.nodes = m2.nodes) : x \in {TLCEval(Expect(m, e))}})
    \cup (CASE e.op = "add_element" -> C("result", IF Same(m, e.args[1]) # {} THEN e.res = -1 ELSE e.res = m.maxel + 1)
            [] e.op = "add_node" -> C("result", e.res = m.maxnode + 1)
            [] e.op = "merge_node" -> C("result", e.res = e.args[2])
            [] OTHER -> {})
    \cup C("modified", Changed(m, m2) \subseteq Rng(e.modif))

Sq(x) == x * x
Dist2(x, y) == Sq(x[1] - y[1]) + Sq(x[2] - y[2]) + Sq(x[3] - y[3])
Origin(m, e2) == \E i \in DOMAIN m.els : m.els[i][1] = e2[1] /\ m.els[i][2] = e2[2]
Heal(m, m2, e) ==
    C("origin", \A i \in DOMAIN m2.els : Origin(m, m2.els[i]) /\ Len(m2.els[i][3]) = e.size[CHOOSE k \in DOMAIN e.size : e.size[k][1] = m2.els[i][1]][2])
    \cup C("sameid", \A i \in DOMAIN m2.els \cap DOMAIN m.els : m2.els[i] = m.els[i])
    \cup C("unchanged", e.good => m2.els = m.els /\ m2.nodes = m.nodes)
    \cup (IF e.gaveup THEN {} ELSE
          C("degenerate", \A i \in DOMAIN m2.els : Cardinality(Rng(m2.els[i][3])) = Len(m2.els[i][3]))
          \cup C("duplicates", \A i, j \in DOMAIN m2.els : i < j => Class(m2.els[i]) # Class(m2.els[j]))
          \cup C("short", e.short = <<>>) \cup C("quality", e.poor = <<>>))

(* one or more defects apart from each other: all the rest stays as it was *)
Repair(m, m2, e) ==
    IF e.defects = <<>> THEN C("untouched", m2.els = m.els /\ m2.nodes = m.nodes)
    ELSE IF e.defects[1][1] = "merge"
    THEN LET q == e.defects[1][2] IN C("merged", MergeBad(m, m2, q[1], q[2]) = {} \/ MergeBad(m, m2, q[2], q[1]) = {})
    ELSE C("repaired", \E x \in Repaired(m, e.defects) : Alike(m, x, m2))

(* histogram of qualities (multiples of 2^-25): bins bounded by 2^-15, 2^-14, .. 1, infinity *)
Pow2(k) == 2 ^ (9 + k)
Stats(m, m2, e) ==
    C("elements", m.els = m2.els) \cup C("nodes", m.nodes = m2.nodes)
    \cup C("badlist", Rng(e.bad) = {e.qual[i][1] : i \in {k \in DOMAIN e.qual : e.qual[k][2] <= e.tolq}} /\ Cardinality(Rng(e.bad)) = Len(e.bad))
    \cup C("histogram", Len(e.hist) = 17 /\ \A k \in 1..17 : e.hist[k] = Cardinality({i \in DOMAIN e.qual :
              (k = 1 \/ e.qual[i][2] >= Pow2(k - 1)) /\ (k = 17 \/ e.qual[i][2] < Pow2(k))}))
    \cup C("total", e.sumflow = Len(e.qual))

Bad(m, m2, e) ==
  IF e.op = "driver" THEN {"exception"} ELSE
  IF e.op = "new" THEN Structure(m2, e) ELSE
  IF e.exc # "" THEN (IF e.refused THEN {} ELSE {"exception"})
  ELSE Structure(m2, e) \cup (CASE e.op = "heal" -> Heal(m, m2, e)
                             [] e.op = "repair" -> Repair(m, m2, e)
                             [] e.op = "stats" -> Stats(m, m2, e)
                             [] e.op = "written" -> C("written", m2.els = m.els /\ m2.nodes = m.nodes)
                             [] OTHER -> Primitive(m, m2, e))
Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args,
                                           exc |-> e.exc, clauses |-> bad]))
Top(m, m2, e) == IF e.op = "new" THEN [m2 EXCEPT !.maxel = MaxOf(DOMAIN m2.els), !.maxnode = MaxOf(DOMAIN m2.nodes)]
                 ELSE [m2 EXCEPT !.maxel = MaxOf({m.maxel} \cup DOMAIN m2.els), !.maxnode = MaxOf({m.maxnode} \cup DOMAIN m2.nodes)]
Step == /\ l <= Len(Trace) /\ l' = l + 1 /\ good' = good
        /\ \E e \in {Trace[l]} : \E m2 \in {State(e)} :
             /\ \E bad \in {Bad(mesh, m2, e)} : IF bad = {} THEN TRUE ELSE Report(e, bad)
             /\ mesh' = Top(mesh, m2, e)
Spec == Init /\ [][Step]_<<l, mesh, good>>
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
