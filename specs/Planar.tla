------------------------------- MODULE Planar -------------------------------
(***************************************************************************)
(* Exact (integer) theory of a planar straight-line graph.                 *)
(*                                                                         *)
(* A drawing is a pair (P, S):                                             *)
(*   P : point id -> <<x, y>>                                              *)
(*   S : segment id -> <<a, b>>   (a = start point id, b = end point id)   *)
(*                                                                         *)
(* A segment has two sides ("darts").  Dart <<s, 1>> runs a -> b and has   *)
(* the left side of the segment on its left; dart <<s, 0>> runs b -> a and *)
(* has the right side of the segment on its left.  So every dart has its   *)
(* face on its left, and Head(d) = S[s][side+1].                           *)
(*                                                                         *)
(* Everything below is defined from coordinates alone, i.e. it is the      *)
(* from-scratch meaning of the incremental bookkeeping in                  *)
(* bgem/polygons/{decomp,segment,point,polygon}.py.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Dot(u, v)   == u[1] * v[1] + u[2] * v[2]
Sub(p, q)   == <<p[1] - q[1], p[2] - q[2]>>
Add(p, q)   == <<p[1] + q[1], p[2] + q[2]>>
MinOf(a, b) == IF a <= b THEN a ELSE b
MaxOf(a, b) == IF a >= b THEN a ELSE b
SgnOf(a)    == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

Opp(d) == <<d[1], 1 - d[2]>>
DartsOf(S) == (DOMAIN S) \X {0, 1}
HeadOf(S, d) == S[d[1]][d[2] + 1]
TailOf(S, d) == S[d[1]][2 - d[2]]
DirOf(P, S, d) == Sub(P[HeadOf(S, d)], P[TailOf(S, d)])

(* Clockwise order of directions around a vertex, measured from direction u. *)
CwClass(u, w) == LET c == Cross(u, w) IN
                 IF c < 0 THEN 0
                 ELSE IF c = 0 THEN (IF Dot(u, w) < 0 THEN 1 ELSE 3)
                 ELSE 2
CwBefore(u, w1, w2) ==
    LET c1 == CwClass(u, w1)  c2 == CwClass(u, w2) IN
    \/ c1 < c2
    \/ c1 = c2 /\ Cross(w1, w2) < 0

(* Darts leaving vertex v *)
OutDarts(S, v) == {<<s, 1>> : s \in {t \in DOMAIN S : S[t][1] = v}} \cup
                  {<<s, 0>> : s \in {t \in DOMAIN S : S[t][2] = v}}

(* The dart that follows d along the boundary of the face on d's left:      *)
(* the first dart clockwise from the reverse of d around Head(d).           *)
GeomNext(P, S, d) ==
    LET r    == Opp(d)
        u    == DirOf(P, S, r)
        cand == OutDarts(S, HeadOf(S, d)) \ {r}
    IN IF cand = {} THEN r
       ELSE CHOOSE e \in cand :
              \A f \in cand \ {e} : CwBefore(u, DirOf(P, S, e), DirOf(P, S, f))

NextTable(P, S) == [d \in DartsOf(S) |-> GeomNext(P, S, d)]

(* Follow a successor table from d; result is the sequence of darts until   *)
(* the walk repeats d (or revisits a dart / exceeds the bound).             *)
RECURSIVE WalkFrom(_, _, _, _)
WalkFrom(nxt, first, cur, acc) ==
    IF Len(acc) > Cardinality(DOMAIN nxt) THEN acc
    ELSE LET n == nxt[cur] IN
         IF n = first THEN acc ELSE WalkFrom(nxt, first, n, Append(acc, n))
Walk(nxt, d) == WalkFrom(nxt, d, d, <<d>>)

SetOf(seq) == {seq[i] : i \in DOMAIN seq}

RECURSIVE OrbitsRec(_, _, _)
OrbitsRec(nxt, rest, acc) ==
    IF rest = {} THEN acc
    ELSE CHOOSE o \in {OrbitsRec(nxt, rest \ SetOf(w), acc \cup {w}) : w \in {Walk(nxt, CHOOSE d \in rest : TRUE)}} : TRUE
(* Set of boundary cycles, each as a sequence of darts *)
Orbits(nxt) == OrbitsRec(nxt, DOMAIN nxt, {})

RECURSIVE Area2Rec(_, _, _, _)
Area2Rec(P, S, w, i) ==
    IF i > Len(w) THEN 0
    ELSE Cross(P[TailOf(S, w[i])], P[HeadOf(S, w[i])]) + Area2Rec(P, S, w, i + 1)
(* Twice the signed area enclosed by a cycle: > 0 iff it is the outer       *)
(* boundary of a bounded face, <= 0 iff it is the outer contour of a        *)
(* connected component.                                                     *)
Area2(P, S, w) == Area2Rec(P, S, w, 1)

(* Half-open ray casting: does the edge p1-p2 cross the ray from q to +x?   *)
RayHit(q, p1, p2) ==
    LET y1 == p1[2] y2 == p2[2] IN
    /\ (y1 <= q[2]) # (y2 <= q[2])
    /\ LET c == Cross(Sub(p2, p1), Sub(q, p1)) IN
       IF y2 > y1 THEN c > 0 ELSE c < 0
InsideCycle(P, S, w, q) ==
    Cardinality({i \in DOMAIN w : RayHit(q, P[TailOf(S, w[i])], P[HeadOf(S, w[i])])}) % 2 = 1

(* Connected components of the segment graph (vertices). *)
RECURSIVE ReachRec(_, _, _)
ReachRec(S, done, frontier) ==
    IF frontier = {} THEN done
    ELSE LET d2 == done \cup frontier
             nb == UNION {{S[s][1], S[s][2]} : s \in {t \in DOMAIN S : S[t][1] \in frontier \/ S[t][2] \in frontier}}
         IN ReachRec(S, d2, nb \ d2)
CompVerts(S, v) == ReachRec(S, {}, {v})

UsedPts(S) == {S[s][1] : s \in DOMAIN S} \cup {S[s][2] : s \in DOMAIN S}

OnSegment(q, p1, p2) ==     \* closed segment
    /\ Cross(Sub(p2, p1), Sub(q, p1)) = 0
    /\ MinOf(p1[1], p2[1]) <= q[1] /\ q[1] <= MaxOf(p1[1], p2[1])
    /\ MinOf(p1[2], p2[2]) <= q[2] /\ q[2] <= MaxOf(p1[2], p2[2])

(* Do two closed segments meet anywhere else than in a common end point?    *)
BadMeet(P, s, t) ==
    LET a == P[s[1]] b == P[s[2]] c == P[t[1]] d == P[t[2]]
        o1 == SgnOf(Cross(Sub(b, a), Sub(c, a)))
        o2 == SgnOf(Cross(Sub(b, a), Sub(d, a)))
        o3 == SgnOf(Cross(Sub(d, c), Sub(a, c)))
        o4 == SgnOf(Cross(Sub(d, c), Sub(b, c)))
    IN \/ (o1 * o2 < 0 /\ o3 * o4 < 0)
       \/ (o1 = 0 /\ c # a /\ c # b /\ OnSegment(c, a, b))
       \/ (o2 = 0 /\ d # a /\ d # b /\ OnSegment(d, a, b))
       \/ (o3 = 0 /\ a # c /\ a # d /\ OnSegment(a, c, d))
       \/ (o4 = 0 /\ b # c /\ b # d /\ OnSegment(b, c, d))
       \/ {s[1], s[2]} = {t[1], t[2]}
       \/ (a = c /\ b = d) \/ (a = d /\ b = c)

PlanarDrawing(P, S) ==
    /\ \A s \in DOMAIN S : S[s][1] # S[s][2] /\ P[S[s][1]] # P[S[s][2]]
    /\ \A s, t \in DOMAIN S : s < t => ~BadMeet(P, S[s], S[t])
    /\ \A p, q \in DOMAIN P : p < q => P[p] # P[q]
    /\ \A p \in DOMAIN P, s \in DOMAIN S :
          p \in {S[s][1], S[s][2]} \/ ~OnSegment(P[p], P[S[s][1]], P[S[s][2]])

(* PlanarDrawing(P, S), given that the drawing (P0, S0) was planar: only    *)
(* what was added or moved can spoil it.                                    *)
PlanarStep(P0, S0, P, S) ==
    \E D \in {{p \in DOMAIN P : p \notin DOMAIN P0 \/ P0[p] # P[p]}} :
    \E C \in {{s \in DOMAIN S : s \notin DOMAIN S0 \/ S0[s] # S[s] \/ S[s][1] \in D \/ S[s][2] \in D}} :
    /\ \A s \in C : S[s][1] # S[s][2] /\ P[S[s][1]] # P[S[s][2]]
    /\ \A s \in C, t \in DOMAIN S : s = t \/ ~BadMeet(P, S[s], S[t])
    /\ \A p \in D, q \in DOMAIN P : p = q \/ P[p] # P[q]
    /\ \A p \in D, s \in DOMAIN S :
          p \in {S[s][1], S[s][2]} \/ ~OnSegment(P[p], P[S[s][1]], P[S[s][2]])
    /\ \A p \in DOMAIN P, s \in C :
          p \in {S[s][1], S[s][2]} \/ ~OnSegment(P[p], P[S[s][1]], P[S[s][2]])

(***************************************************************************)
(* The faces of a drawing.  A face is identified by its outer cycle; the   *)
(* unbounded face by <<>>.                                                 *)
(***************************************************************************)
(* The values are bound by set comprehensions, not LET: TLC re-evaluates a  *)
(* LET definition at every use inside an action.                            *)
The(set) == CHOOSE x \in set : TRUE

FacesOf(P, S, nxt, orbs, ar, comp) ==
    LET pos  == {w \in orbs : ar[w] > 0}
        neg  == orbs \ pos
        (* innermost bounded face strictly containing q, ignoring component C *)
        Loc(q, C) == The({ IF cs = {} THEN <<>> ELSE CHOOSE w \in cs : \A v \in cs : ar[w] <= ar[v]
                           : cs \in {{w \in orbs : ar[w] > 0 /\ comp[w] # C /\ InsideCycle(P, S, w, q)}} })
    IN [ next   |-> nxt,
         pos    |-> pos,
         neg    |-> neg,
         comp   |-> comp,
         area   |-> ar,
         (* each component contour lies in exactly one face *)
         inface |-> TLCEval([w \in neg |-> Loc(P[TailOf(S, w[1])], comp[w])]),
         (* each bounded face belongs to the component of exactly one contour *)
         contour|-> TLCEval([w \in pos |-> CHOOSE n \in neg : comp[n] = comp[w]]),
         ptface |-> TLCEval([p \in (DOMAIN P) \ UsedPts(S) |-> Loc(P[p], {})]) ]

Faces(P, S) ==
    The({ FacesOf(P, S, t.nxt, t.orbs, t.ar, t.comp) : t \in
          { [nxt |-> u.nxt, orbs |-> u.orbs,
             ar  |-> TLCEval([w \in u.orbs |-> Area2(P, S, w)]),
             comp |-> TLCEval([w \in u.orbs |-> CompVerts(S, TailOf(S, w[1]))])] : u \in
            { [nxt |-> n, orbs |-> Orbits(n)] : n \in {TLCEval(NextTable(P, S))} } } })
=============================================================================
