----------------------------- MODULE MshFormat -----------------------------
(***************************************************************************)
(* The ASCII MSH mesh file format (versions 1 and 2), as written and read  *)
(* by bgem/gmsh/gmsh_io.py.  A file is a sequence of token lines; a token  *)
(* is a string.  Numbers are compared by their canonical text: the driver  *)
(* and the models use canonical texts of numbers only.                     *)
(*                                                                         *)
(* Mesh == [nodes : id -> <<x, y, z>>, elems : id -> <<type, tags, nodes>>,*)
(*          phys : name -> <<id, dim>>,                                    *)
(*          data : <<field, time index>> -> <<time, rows>>, rows: id -> values] *)
(* ids, types, tags are numerals (strings) so that the same operators work *)
(* for reading and writing.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

EmptyMesh == [nodes |-> <<>>, elems |-> <<>>, phys |-> <<>>, data |-> <<>>]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Tail2(s, k) == SubSeq(s, k, Len(s))

Mode(tok) ==
    CASE tok \in {"$NOD", "$Nodes"} -> "nodes"
      [] tok = "$ELM"           -> "elems1"
      [] tok = "$Elements"      -> "elems2"
      [] tok = "$PhysicalNames" -> "phys"
      [] tok = "$ElementData"   -> "data"
      [] OTHER                  -> "skip"

IsHead(line) == line # <<>> /\ line[1] \in
    {"$NOD", "$Nodes", "$ELM", "$Elements", "$PhysicalNames", "$ElementData", "$MeshFormat", "$ENDNOD", "$EndNodes",
     "$ENDELM", "$EndElements", "$EndPhysicalNames", "$EndElementData", "$EndMeshFormat", "$Other", "$EndOther"}

(* Reader state: mode, k lines of the header read, entries left in the section, mesh *)
(* a section header of a data block has 8 lines: 1, name, 1, time, 3, index, components, rows *)
DataLine(r, line, IntOf(_)) ==
    IF line[1] = "$EndElementData" THEN
         IF r.k < 8 \/ r.left # 0 THEN [r EXCEPT !.mode = "error"] ELSE [r EXCEPT !.mode = "skip", !.head = <<>>]
    ELSE LET h == Append(r.head, line) IN
         IF r.k < 7 THEN [r EXCEPT !.k = @ + 1, !.head = h]
         ELSE IF r.k = 7 THEN
            LET key == <<h[2][1], h[6][1]>> IN
            IF key \in DOMAIN r.mesh.data THEN [r EXCEPT !.mode = "error"]
            ELSE [r EXCEPT !.k = 8, !.head = h, !.left = IntOf(line[1]), !.mesh.data = Put(@, key, <<h[4][1], <<>>>>)]
         ELSE LET key == <<r.head[2][1], r.head[6][1]>> IN
            IF r.left = 0 \/ Len(line) # IntOf(r.head[7][1]) + 1 THEN [r EXCEPT !.mode = "error"]
            ELSE [r EXCEPT !.left = @ - 1, !.mesh.data[key] = <<@[1], Put(@[2], line[1], Tail2(line, 2))>>]

Entry(m, mode, line, IntOf(_)) ==
    CASE mode = "nodes" -> [m EXCEPT !.nodes = Put(@, line[1], Tail2(line, 2))]
      [] mode = "phys"  -> [m EXCEPT !.phys = Put(@, line[3], <<line[2], line[1]>>)]
      [] mode = "elems2" -> LET nt == IntOf(line[3]) IN
           [m EXCEPT !.elems = Put(@, line[1], <<line[2], SubSeq(line, 4, 3 + nt), Tail2(line, 4 + nt)>>)]
      [] OTHER -> (* elems1: id type physical elementary count nodes *)
           [m EXCEPT !.elems = Put(@, line[1], <<line[2], SubSeq(line, 3, 4), Tail2(line, 6)>>)]

ReadLine(r, line, IntOf(_)) ==
    IF line = <<>> \/ r.mode = "error" THEN r
    ELSE IF r.mode = "data" THEN DataLine(r, line, IntOf)
    ELSE IF IsHead(line) THEN [r EXCEPT !.mode = Mode(line[1]), !.k = 0, !.head = <<>>, !.left = 0,
                                        !.miscount = @ \/ r.left # 0]
    ELSE IF r.mode = "skip" THEN r
    ELSE IF r.k = 0 THEN [r EXCEPT !.k = 1, !.left = IntOf(line[1])]     \* number of entries
    ELSE [r EXCEPT !.left = @ - 1, !.mesh = Entry(@, r.mode, line, IntOf)]

Start == [mode |-> "skip", k |-> 0, left |-> 0, head |-> <<>>, miscount |-> FALSE, mesh |-> EmptyMesh]
(* result of reading a file *)
ReadFile(lines, IntOf(_)) ==
    LET r == FoldLeft(LAMBDA x, line : TLCEval(ReadLine(x, line, IntOf)), Start, lines) IN
    [ok |-> r.mode \notin {"error", "data"}, miscount |-> r.miscount \/ r.left # 0, mesh |-> r.mesh]

(* Sections a writer produces.  ids: sequences giving the order of the lines *)
Lines(seq, F(_)) == [k \in DOMAIN seq |-> F(seq[k])]

WriteMesh(m, nodeids, elemids, names, StrOf(_)) ==
    LET physline(n) == <<m.phys[n][2], m.phys[n][1], n>>
        nodeline(i) == <<i>> \o m.nodes[i]
        elemline(i) == <<i, m.elems[i][1], StrOf(Len(m.elems[i][2]))>> \o m.elems[i][2] \o m.elems[i][3]
    IN <<<<"$MeshFormat">>, <<"2.2", "0", "8">>, <<"$EndMeshFormat">>>>
       \o <<<<"$PhysicalNames">>, <<StrOf(Len(names))>>>> \o Lines(names, physline) \o <<<<"$EndPhysicalNames">>>>
       \o <<<<"$Nodes">>, <<StrOf(Len(nodeids))>>>> \o Lines(nodeids, nodeline) \o <<<<"$EndNodes">>>>
       \o <<<<"$Elements">>, <<StrOf(Len(elemids))>>>> \o Lines(elemids, elemline) \o <<<<"$EndElements">>>>

WriteData(field, ids, rows, ncomp, StrOf(_)) ==
    LET row(k) == <<ids[k]>> \o rows[k] IN
    <<<<"$ElementData">>, <<"1">>, <<field>>, <<"1">>, <<"0.0">>, <<"3">>, <<"0">>, <<StrOf(ncomp)>>, <<StrOf(Len(ids))>>>>
       \o Lines([k \in 1..Len(ids) |-> k], row) \o <<<<"$EndElementData">>>>
=============================================================================
