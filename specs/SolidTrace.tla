----------------------------- MODULE SolidTrace -----------------------------
(***************************************************************************)
(* Recorded operations on ObjectSets.  State: sets = id -> entries.        *)
(* Line: op, args, self (set id), tools (ids), out (ids of the results),   *)
(*  sets: all live sets after the call as [id, entries],                   *)
(*  entries [dim, tag, region id, region name, cells]                      *)
(* PROP G05: sets and regions, G06: meshes                                 *)
(***************************************************************************)
EXTENDS Solids, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP == IOEnv.PROP
VARIABLES l, sets, last
Init == l = 1 /\ sets = <<>> /\ last = <<>>

Entry(x) == [d |-> x[1], tag |-> x[2], r |-> x[3], n |-> x[4], c |-> Rng(x[5])]
SetsOf(e) == [i \in {e.sets[k][1] : k \in DOMAIN e.sets} |->
                LET k == CHOOSE k \in DOMAIN e.sets : e.sets[k][1] = i IN
                [j \in DOMAIN e.sets[k][2] |-> Entry(e.sets[k][2][j])]]
RECURSIVE Concat(_, _, _)
Concat(P, ids, k) == IF k > Len(ids) THEN <<>> ELSE P[ids[k]] \o Concat(P, ids, k + 1)

Move(c, v) == IF Len(c) = 3 THEN <<c[1] + v[1], c[2] + v[2], c[3] + v[3]>> ELSE <<c[1], c[2] + v[1], c[3] + v[2], c[4] + v[3]>>
(* quarter turn about the axis z through (m, m): (x, y) -> (2m - 1 - y, x) for cubes *)
Turn(c, m) == IF Len(c) = 3 THEN <<2 * m - 1 - c[2], c[1], c[3]>>
              ELSE CASE c[1] = 3 -> <<3, 2 * m - 1 - c[3], c[2], c[4]>>
                     [] c[1] = 1 -> <<2, 2 * m - 1 - c[3], c[2], c[4]>>
                     [] OTHER    -> <<1, 2 * m - c[3], c[2], c[4]>>
(* doubling about the origin *)
Double(c) == IF Len(c) = 3 THEN {<<2 * c[1] + i, 2 * c[2] + j, 2 * c[3] + k>> : i \in 0..1, j \in 0..1, k \in 0..1}
             ELSE {<<c[1], 2 * c[2] + (IF c[1] = 1 THEN 0 ELSE i), 2 * c[3] + (IF c[1] = 2 THEN 0 ELSE j),
                     2 * c[4] + (IF c[1] = 3 THEN 0 ELSE k)>> : i \in 0..1, j \in 0..1, k \in 0..1}
Image(S, F(_)) == [k \in DOMAIN S |-> [S[k] EXCEPT !.c = UNION {F(x) : x \in S[k].c}]]

Block(lo, hi) == {<<x, y, z>> : x \in lo[1]..(hi[1] - 1), y \in lo[2]..(hi[2] - 1), z \in lo[3]..(hi[3] - 1)}
Sheet(lo, hi) == {<<3, x, y, lo[3]>> : x \in lo[1]..(hi[1] - 1), y \in lo[2]..(hi[2] - 1)}

(* rectangle of the sides f[1], f[2] turned about x (1) or y (2), around the centre f[4..6] *)
Disk(f) ==
    LET a == f[1] \div 2 b == f[2] \div 2 x == f[4] y == f[5] z == f[6] IN
    CASE f[3] = 0 -> {<<3, x + i, y + j, z>> : i \in -a..(a - 1), j \in -b..(b - 1)}
      [] f[3] = 1 -> {<<2, x + i, y, z + j>> : i \in -a..(a - 1), j \in -b..(b - 1)}
      [] OTHER    -> {<<1, x, y + j, z + i>> : i \in -a..(a - 1), j \in -b..(b - 1)}
DefaultName(d) == "default_" \o ToString(d) \o "d"
Given == {"rock", "clay", "sand", "frac", "fault", "crack"}
(* everything but the regions *)
Bare(S) == [k \in DOMAIN S |-> [S[k] EXCEPT !.r = 0, !.n = ""]]
NoName(S) == [k \in DOMAIN S |-> [S[k] EXCEPT !.n = ""]]
NoId(S) == [k \in DOMAIN S |-> [S[k] EXCEPT !.r = 0]]
StartsWith(a, b) == Len(a) >= Len(b) /\ SubSeq(a, 1, Len(b)) = b
(* sums over cells: number and twice the coordinates of the centres *)
Mid2(c, k) == IF Len(c) = 3 THEN 2 * c[k] + 1 ELSE 2 * c[k + 1] + (IF c[1] = k THEN 0 ELSE 1)
CoordSum(K, k) == FoldSet(LAMBDA c, acc : acc + Mid2(c, k), 0, K)
CoordAll(S, k) == FoldLeft(LAMBDA acc, s : acc + CoordSum(s.c, k), 0, S)
CountOf(S) == FoldLeft(LAMBDA acc, s : acc + Cardinality(s.c), 0, S)

(* ---- meshes: groups [dim, name, measure, cells], one for every region *)
MeshOk(e, P, Q) ==
  LET E == Concat(P, e.tools, 1)
      G == e.res[3]
      R == Regions(E)
      Of(r) == {s \in Rng(E) : s.r = r}
      D(r) == (CHOOSE s \in Of(r) : TRUE).d
      N(r) == (CHOOSE s \in Of(r) : TRUE).n
      K(r) == UNION {s.c : s \in Of(r)}
      New(r) == (CHOOSE s \in Rng(Concat(Q, e.tools, 1)) : s.r = r).n
  IN C("eliminated", e.args[1] = 1 => e.res[1] = 0)
     \cup C("missing", e.args[1] = 1 => e.res[2] = 0)
     \cup C("groups", Len(G) = Cardinality(R))
     \cup C("unique", \A i, j \in DOMAIN G : i # j => G[i][2] # G[j][2])
     \cup C("elements", \A r \in R : \E i \in DOMAIN G : /\ G[i][1] = D(r) /\ G[i][2] = New(r)
                                /\ IF D(r) <= e.args[2] THEN G[i][3] = Cardinality(K(r)) /\ Rng(G[i][4]) \subseteq K(r)
                                                        ELSE G[i][3] = 0)
     \cup C("renamed", \A r \in R : IF \E q \in R : q # r /\ N(q) = N(r) THEN StartsWith(New(r), N(r)) ELSE New(r) = N(r))
     \cup C("nodes", e.res[4] = 0)

Effect(e, P, Q) ==
  LET S == IF e.self \in DOMAIN P THEN P[e.self] ELSE <<>>
      T == Concat(P, e.tools, 1)
      O(k) == Q[e.out[k]]
  IN CASE e.op = "box"  -> C("cover", Len(O(1)) = 1 /\ O(1)[1].d = 3 /\ O(1)[1].c = Block(e.args[1], e.args[2]))
                           \cup C("regions", O(1)[1].n = DefaultName(3))
       [] e.op = "rect" -> C("argument", e.res[1] = 1) \cup C("cover", Len(O(1)) = 1 /\ O(1)[1].d = 2 /\ O(1)[1].c = Sheet(e.args[1], e.args[2]))
                           \cup C("regions", O(1)[1].n = DefaultName(2))
       [] e.op = "polygon" -> C("cover", Len(O(1)) = 1 /\ O(1)[1].d = 2 /\ O(1)[1].n = DefaultName(2)
                                 /\ O(1)[1].c = {q \in Sheet(e.args[1], e.args[2]) : e.args[3] = <<>> \/ q[2] < e.args[3][1] \/ q[3] < e.args[3][2]})
       [] e.op = "quad" -> C("cover", Len(O(1)) = 1 /\ O(1)[1].d = 2 /\ O(1)[1].c = Sheet(<<-e.args[1], -e.args[2], 0>>, e.args))
       [] e.op = "fractures" ->
              UNION {LET f == e.args[k] IN
                     C("cover", Cells(O(k)) = Disk(f)) \cup C("regions", \A a \in Rng(O(k)) : a.d = 2 /\ a.n = f[7]) : k \in DOMAIN e.args}
              \cup Conforming(Concat(Q, e.out, 1))
       [] e.op = "region_tags" -> C("cover", Bare(Q[e.self]) = Bare(S))
              \cup C("regions", \A a \in Rng(Q[e.self]) : a.n = ToString(a.d) \o "_" \o ToString(a.tag))
       [] e.op = "copy" -> C("cover", Shape(O(1)) = Shape(S))
                           \cup C("entities", \A a \in Rng(O(1)) : \A i \in DOMAIN P : \A b \in Rng(P[i]) : <<a.d, a.tag>> # <<b.d, b.tag>>)
       [] e.op = "translate" -> C("cover", Q[e.self] = Image(S, LAMBDA c : {Move(c, e.args[1])}))
       [] e.op = "rotate"    -> C("cover", Q[e.self] = Image(S, LAMBDA c : {Turn(c, e.args[1])}))
       [] e.op = "scale"     -> C("cover", Q[e.self] = Image(S, LAMBDA c : Double(c)))
       [] e.op = "set_region" -> C("cover", Bare(Q[e.self]) = Bare(S))
                                 \cup C("regions", \A a, b \in Rng(Q[e.self]) : a.n = e.args[1] /\ a.r = b.r)
                                 \cup C("self", e.res[1] = 1)
       [] e.op = "modify_regions" -> C("cover", Bare(Q[e.self]) = Bare(S))
              \cup C("regions", /\ \A k \in DOMAIN S : Q[e.self][k].n = e.args[1] \o S[k].n
                                /\ \A a, b \in Rng(Q[e.self]) : (a.n = b.n) <=> (a.r = b.r))
       [] e.op = "group" -> C("cover", O(1) = T)
       [] e.op = "split_by_region" ->
              C("cover", \A r \in Regions(S) : \E k \in DOMAIN e.out : O(k) = SelectSeq(S, LAMBDA a : a.r = r))
              \cup C("regions", Len(e.out) = Cardinality(Regions(S)))
       [] e.op = "split_by_dimension" ->
              C("cover", Len(e.out) = 4 /\ \A d \in 0..3 : O(d + 1) = SelectSeq(S, LAMBDA a : a.d = d))
       [] e.op = "cut" -> Pieces(S, O(1), LAMBDA s : Minus(s, T)) \cup C("invalid", e.text = "")
       [] e.op = "intersect" -> Pieces(S, O(1), LAMBDA s : Common(s, T)) \cup C("invalid", e.text = "")
       [] e.op = "fragment" -> Pieces(S, O(1), LAMBDA s : s.c) \cup Cutby(O(1), T) \cup C("invalid", e.text = "")
       [] e.op = "fragment_all" ->
              UNION {Pieces(P[e.tools[k]], O(k), LAMBDA s : s.c) : k \in DOMAIN e.tools}
              \cup Conforming(Concat(Q, e.out, 1))
              \cup UNION {Cutby(O(k), T) : k \in DOMAIN e.tools}
       [] e.op = "split_by_cut" ->
              Pieces(S, O(1), LAMBDA s : Minus(s, T)) \cup Pieces(T, O(2), LAMBDA s : Minus(s, S))
              \cup Pieces(S, O(3), LAMBDA s : Common(s, T)) \cup Pieces(T, O(4), LAMBDA s : Common(s, S))
              \cup Conforming(Concat(Q, e.out, 1)) \cup C("invalid", e.text = "")
       [] e.op = "select" ->
              IF e.text # ""
              (* a body has to be either inside of a single tool or outside of all *)
              THEN C("error", e.text = "Can not select by intersect, insufficient fragmentation"
                              /\ \E s \in Rng(S) : \/ Cardinality({k \in DOMAIN T : Common(s, <<T[k]>>) # {}}) > 1
                                                   \/ (Common(s, T) # s.c /\ Cardinality(Common(s, T)) > 1))
              ELSE C("cover", O(1) = SelectSeq(S, LAMBDA s : Common(s, T) # {}))
       [] e.op = "boundary" -> C("cover", Cells(O(1)) = (IF e.args[1] = 1 THEN BoundaryCombined(S) ELSE BoundaryAll(S)))
                               \cup C("regions", \A a \in Rng(O(1)) : a.d = 2 /\ a.n = DefaultName(2))
                               \cup C("once", e.args[1] = 1 => \A i, j \in DOMAIN O(1) : i # j => O(1)[i].tag # O(1)[j].tag)
       [] e.op = "boundary_regions" ->
              C("cover", Len(e.out) = Cardinality(Regions(S)) /\ \A r \in Regions(S) : \E k \in DOMAIN e.out :
                    LET R == SelectSeq(S, LAMBDA s : s.r = r) IN
                    /\ Cells(O(k)) = BoundaryCombined(R)
                    /\ \A a \in Rng(O(k)) : a.d = 2 /\ a.n = IF e.args = <<>> THEN "." \o R[1].n ELSE e.args[1] \o R[1].n \o e.args[2])
              \cup C("regions", \A i, j \in DOMAIN e.out : \A a \in Rng(O(i)), b \in Rng(O(j)) : (a.r = b.r) <=> (i = j))
       [] e.op = "small" -> C("cover", Q[e.self] = SelectSeq(S, LAMBDA s : Cardinality(s.c) > e.args[1]))
       [] e.op = "mass" -> C("cover", e.res = <<2 * CountOf(S), 2 * CountOf(S), CoordAll(S, 1), CoordAll(S, 2), CoordAll(S, 3), 1>>)
       [] e.op = "badcut" -> C("error", e.text = "BoolOperationError") \cup C("cover", Q[e.self] = S)
       [] e.op = "mesh_step" -> C("sizes", e.res = <<<<e.args[1]>>, 1>>)
       [] e.op = "keep" -> C("eliminated", e.res[1] = 0) \cup C("missing", e.res[2] = 0)
       [] e.op = "mesh" -> MeshOk(e, P, Q)
       [] OTHER -> {}
Changes == {"translate", "rotate", "scale", "set_region", "modify_regions", "small", "region_tags"}
Frame(e, P, Q) ==
    LET gone == Rng(e.drop) \cup (IF e.op \in {"cut", "intersect", "fragment", "split_by_cut"} THEN {e.self} ELSE {})
                            \cup (IF e.op \in {"split_by_cut", "fragment_all"} THEN Rng(e.tools) ELSE {})
                            \cup (IF e.op \in Changes THEN {e.self} ELSE {})
        all == {x \in UNION {Rng(Q[i]) : i \in DOMAIN Q} : x.n \in Given}
    IN C("others", \A i \in DOMAIN P \ gone : i \in DOMAIN Q /\ IF e.op = "mesh" THEN NoName(Q[i]) = NoName(P[i]) ELSE Q[i] = P[i])
       \cup C("names", \A a, b \in all : (a.n = b.n) <=> (a.r = b.r))
(* the same operations without looking at the model in between *)
Again(e, P, Q) == C("cover", DOMAIN P = DOMAIN Q /\ \A i \in DOMAIN P : NoId(P[i]) = NoId(Q[i]))
                  \cup C("elements", e.res = last)
Mesh6 == {"eliminated", "missing", "groups", "unique", "elements", "renamed", "nodes", "sizes"}
Select(e, bad) == IF bad \subseteq {"exception"} THEN (IF (PROP = "G06") = (e.op \in {"keep", "mesh", "mesh_step"}) THEN bad ELSE {})
                  ELSE IF PROP = "G06" THEN bad \cap Mesh6 ELSE bad \ Mesh6

Bad(e, P, Q) ==
  IF e.op \in {"driver"} THEN {"exception"}
  ELSE IF e.op = "new" THEN {}
  ELSE Select(e, IF e.exc # "" THEN {"exception"}
                 ELSE IF e.op = "again" THEN Again(e, P, Q) ELSE Effect(e, P, Q) \cup Frame(e, P, Q))
Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args,
                                           exc |-> e.exc, clauses |-> bad]))
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E e \in {Trace[l]} : \E Q \in {TLCEval(SetsOf(e))} :
             /\ \E bad \in {Bad(e, sets, Q)} : IF bad = {} THEN TRUE ELSE Report(e, bad)
             /\ sets' = Q
             /\ last' = IF e.op = "mesh" THEN [k \in DOMAIN (IF e.exc = "" THEN e.res[3] ELSE <<>>) |-> SubSeq(e.res[3][k], 1, 3)] ELSE IF e.op = "new" THEN <<>> ELSE last
Spec == Init /\ [][Step]_<<l, sets, last>>
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
