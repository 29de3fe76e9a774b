------------------------------ MODULE MshTrace ------------------------------
(***************************************************************************)
(* Files written and read by GmshIO, checked against the format.           *)
(* One line per file:                                                      *)
(*  op "write" : mesh -> lines (tokens of the written file)                *)
(*     "read"  : lines -> out (mesh in memory after reading)               *)
(*  meshes are recorded as lists of entries                                *)
(***************************************************************************)
EXTENDS MshFormat, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP == IOEnv.PROP
VARIABLES l
Init == l = 1
ASSUME TLCSet(7, [s \in {ToString(i) : i \in 0..400} |-> CHOOSE i \in 0..400 : ToString(i) = s])
IntOf(s) == LET T == TLCGet(7) IN IF s \in DOMAIN T THEN T[s] ELSE -1

FnOf(L, K(_), V(_)) == [k \in {K(L[i]) : i \in DOMAIN L} |-> V(L[CHOOSE i \in DOMAIN L : K(L[i]) = k])]
Mesh(m) == [nodes |-> FnOf(m.nodes, LAMBDA e : e[1], LAMBDA e : e[2]),
            elems |-> FnOf(m.elems, LAMBDA e : e[1], LAMBDA e : <<e[2], e[3], e[4]>>),
            phys  |-> FnOf(m.phys, LAMBDA e : e[1], LAMBDA e : <<e[2], e[3]>>),
            data  |-> FnOf(m.data, LAMBDA e : <<e[1], e[2]>>,
                           LAMBDA e : <<e[3], FnOf(e[4], LAMBDA r : r[1], LAMBDA r : r[2])>>)]
C(name, ok) == IF ok THEN {} ELSE {name}
(* a file starts by its format, every section is closed before the next one and no line is outside of them *)
WellFormed(lines) ==
  LET Mark(k) == Len(lines[k]) = 1 /\ lines[k][1] \in {"$MeshFormat", "$EndMeshFormat", "$PhysicalNames", "$EndPhysicalNames", "$Nodes", "$EndNodes",
                                                      "$Elements", "$EndElements", "$ElementData", "$EndElementData"}
      EndOf == [x \in {"$MeshFormat", "$PhysicalNames", "$Nodes", "$Elements", "$ElementData"} |->
                CASE x = "$MeshFormat" -> "$EndMeshFormat" [] x = "$PhysicalNames" -> "$EndPhysicalNames" [] x = "$Nodes" -> "$EndNodes"
                  [] x = "$Elements" -> "$EndElements" [] OTHER -> "$EndElementData"]
      marks == SelectSeq([k \in DOMAIN lines |-> k], Mark) IN
  /\ Len(lines) >= 3 /\ SubSeq(lines, 1, 3) = <<<<"$MeshFormat">>, <<"2.2", "0", "8">>, <<"$EndMeshFormat">>>>
  /\ Len(marks) % 2 = 0
  /\ \A k \in DOMAIN marks : k % 2 = 1 =>
        /\ lines[marks[k]][1] \in DOMAIN EndOf /\ lines[marks[k + 1]][1] = EndOf[lines[marks[k]][1]]
        /\ marks[k] = IF k = 1 THEN 1 ELSE marks[k - 1] + 1
  /\ marks[Len(marks)] = Len(lines)

Bad(e) ==
  IF e.op = "driver" THEN {"exception"} ELSE
  UNION { CASE e.op = "write" ->
                 IF e.exc # "" THEN {"exception"}
                 ELSE C("readable", r.ok /\ WellFormed(e.lines)) \cup C("counts", ~r.miscount)
                      \cup UNION {C("nodes", r.mesh.nodes = m.nodes) \cup C("elements", r.mesh.elems = m.elems)
                                  \cup C("names", r.mesh.phys = m.phys) \cup C("data", r.mesh.data = m.data)
                                  : m \in {Mesh(e.mesh)}}
            [] OTHER ->
                 IF ~r.ok THEN C("rejected", e.exc # "")
                 ELSE IF e.exc # "" THEN {"exception"}
                 ELSE UNION {C("nodes", r.mesh.nodes = m.nodes) \cup C("elements", r.mesh.elems = m.elems)
                            \cup C("names", r.mesh.phys = m.phys) \cup C("data", r.mesh.data = m.data)
                            : m \in {Mesh(e.out)}}
        : r \in {TLCEval(ReadFile(e.lines, IntOf))} }
Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args,
                                           exc |-> e.exc, clauses |-> bad]))
Mine(bad) == bad \cap (IF PROP = "G01" THEN {"exception", "readable", "counts", "nodes", "elements", "names"}
                       ELSE {"exception", "readable", "data", "rejected"})
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E e \in {Trace[l]} : \E bad \in {Mine(Bad(e))} : IF bad = {} THEN TRUE ELSE Report(e, bad)
Spec == Init /\ [][Step]_l
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
