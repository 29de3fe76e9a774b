------------------------------ MODULE Solids --------------------------------
(***************************************************************************)
(* Sets of geometric objects with regions (bgem/gmsh/gmsh.py, ObjectSet).  *)
(* The bodies are unions of unit cells of a grid: an entry of a set is     *)
(*   [d |-> dimension, tag |-> entity, r |-> region id, n |-> region name, *)
(*    c |-> set of cells]                                                  *)
(* cells of dimension 3: <<x, y, z>>; unit squares: <<axis, x, y, z>>,     *)
(* the square with its lowest corner there, orthogonal to the axis.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Rng(s) == {s[k] : k \in DOMAIN s}
C(name, ok) == IF ok THEN {} ELSE {name}
Cells(S) == UNION {s.c : s \in Rng(S)}
CellsD(S, d) == UNION {s.c : s \in {t \in Rng(S) : t.d = d}}
Regions(S) == {s.r : s \in Rng(S)}
OfRegion(S, r) == {s \in Rng(S) : s.r = r}

(* unit squares around a unit cube *)
Faces(c) == {<<1, c[1], c[2], c[3]>>, <<1, c[1] + 1, c[2], c[3]>>, <<2, c[1], c[2], c[3]>>, <<2, c[1], c[2] + 1, c[3]>>,
             <<3, c[1], c[2], c[3]>>, <<3, c[1], c[2], c[3] + 1>>}
(* the two cubes next to a square *)
Sides(q) == {<<q[2], q[3], q[4]>>,
             <<q[2] - (IF q[1] = 1 THEN 1 ELSE 0), q[3] - (IF q[1] = 2 THEN 1 ELSE 0), q[4] - (IF q[1] = 3 THEN 1 ELSE 0)>>}
Boundary(K) == {q \in UNION {Faces(c) : c \in K} : Cardinality(Sides(q) \cap K) = 1}
BoundaryAll(S) == UNION {Boundary(s.c) : s \in Rng(S)}
RECURSIVE SumOver(_, _, _)
SumOver(S, q, k) == IF k > Len(S) THEN 0 ELSE (IF q \in Boundary(S[k].c) THEN 1 ELSE 0) + SumOver(S, q, k + 1)
BoundaryCombined(S) == {q \in BoundaryAll(S) : SumOver(S, q, 1) % 2 = 1}

(* squares and cubes covered by a tool: a square inside a solid is part of it *)
Inside(q, T) == \/ q \in CellsD(T, 2)
                \/ Sides(q) \cap CellsD(T, 3) # {}
Minus(s, T) == IF s.d = 3 THEN s.c \ CellsD(T, 3) ELSE {q \in s.c : ~Inside(q, T)}
Common(s, T) == IF s.d = 3 THEN s.c \cap CellsD(T, 3) ELSE {q \in s.c : Inside(q, T)}

(* O is what remains of S when every entry s is replaced by pieces covering F(s) *)
Pieces(S, O, F(_)) ==
    C("regions", Regions(O) \subseteq Regions(S))
    \cup C("cover", \A r \in Regions(S) : UNION {o.c : o \in OfRegion(O, r)} = UNION {F(s) : s \in OfRegion(S, r)})
    \cup C("pieces", \A o \in Rng(O) : \E s \in OfRegion(S, o.r) : s.d = o.d /\ o.n = s.n /\ o.c \subseteq F(s) /\ o.c # {})
(* entries with common cells are one entity *)
Conforming(S) == C("conforming", \A a, b \in Rng(S) : a.d = b.d /\ a.c \cap b.c # {} => a.tag = b.tag)
(* pieces do not reach over the boundary of a tool *)
Cutby(O, T) == C("split", \A o \in Rng(O), t \in Rng(T) : (o.d = 3 /\ t.d = 3) => (o.c \subseteq t.c \/ o.c \cap t.c = {}))

Shape(S) == [k \in DOMAIN S |-> [S[k] EXCEPT !.tag = 0]]
=============================================================================
