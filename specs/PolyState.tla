----------------------------- MODULE PolyState -----------------------------
(***************************************************************************)
(* The abstract state of a polygon decomposition as observed through the   *)
(* public objects (points, segments, wires, polygons), and the clauses     *)
(* that tie the observed bookkeeping to the exact planar theory (Planar).  *)
(* All ids are 1-based; 0 means "none"; empty slots are <<>>.              *)
(*  pts[i]   = <<x, y, poly, attr, <<<<seg, vtx>>, ...>>, self>>           *)
(*  segs[i]  = <<a, b, nextSeg0, nextSide0, nextSeg1, nextSide1,           *)
(*               wire0, wire1, attr, <<vx, vy>>, self, registered>>         *)
(*  wires[i] = <<parent, polygon, seg, side, childs>>                      *)
(*  polys[i] = <<outer wire, free points, depth, vertices, childs, attr>>  *)
(***************************************************************************)
EXTENDS Planar

Ids(t)   == {i \in DOMAIN t : t[i] # <<>>}
PtMap(st)  == [i \in Ids(st.pts) |-> <<st.pts[i][1], st.pts[i][2]>>]
SegMap(st) == [i \in Ids(st.segs) |-> <<st.segs[i][1], st.segs[i][2]>>]
NextOf(st, d) == IF d[2] = 0 THEN <<st.segs[d[1]][3], st.segs[d[1]][4]>>
                             ELSE <<st.segs[d[1]][5], st.segs[d[1]][6]>>
WireOf(st, d) == st.segs[d[1]][7 + d[2]]
PolyOfDart(st, d) == st.wires[WireOf(st, d)][2]
SegAttr(st, s) == st.segs[s][9]
RootWires(st) == {w \in Ids(st.wires) : st.wires[w][1] = 0}

(* References resolve: needed before any other clause can be evaluated. *)
WellFormed(st) ==
    LET PI == Ids(st.pts) SI == Ids(st.segs) WI == Ids(st.wires) GI == Ids(st.polys) IN
    /\ \A s \in SI : LET r == st.segs[s] IN
          /\ r[1] \in PI /\ r[2] \in PI /\ r[1] # r[2]
          /\ r[3] \in SI /\ r[4] \in {0, 1} /\ r[5] \in SI /\ r[6] \in {0, 1}
          /\ r[7] \in WI /\ r[8] \in WI /\ r[11] = 1 /\ r[12] = 1
    /\ \A w \in WI : LET r == st.wires[w] IN
          /\ r[1] \in WI \cup {0} /\ r[2] \in GI
          /\ r[1] = 0 <=> r[3] = 0
          /\ r[3] # 0 => r[3] \in SI /\ r[4] \in {0, 1}
          /\ SetOf(r[5]) \subseteq WI
    /\ Cardinality(RootWires(st)) = 1
    /\ st.outer \in GI
    /\ \A g \in GI : LET r == st.polys[g] IN
          /\ r[1] \in WI /\ SetOf(r[2]) \subseteq PI /\ SetOf(r[4]) \subseteq PI
    /\ \A p \in PI : LET r == st.pts[p] IN
          /\ r[3] \in GI \cup {0} /\ r[6] = 1
          /\ (r[3] = 0) <=> (r[5] # <<>>)
          /\ \A k \in DOMAIN r[5] : r[5][k][1] \in SI /\ r[5][k][2] \in {0, 1}
    /\ st.off = 0

C(name, holds) == IF holds THEN {} ELSE {name}

(***************************************************************************)
(* P01  boundary links = planar embedding                                  *)
(***************************************************************************)
EmbeddingClauses(st, F, P, S) ==
    LET darts == DOMAIN F.next
        used  == {WireOf(st, d) : d \in darts}
    IN C("next", \A d \in darts : NextOf(st, d) = F.next[d])
       \cup C("wirecycle", /\ \A d \in darts : WireOf(st, d) = WireOf(st, F.next[d])
                           /\ Cardinality(used) = Cardinality(F.pos \cup F.neg))
       \cup C("wireset", Ids(st.wires) = used \cup RootWires(st)
                         /\ RootWires(st) \cap used = {})
       \cup C("wireanchor", \A w \in Ids(st.wires) \ RootWires(st) :
                  <<st.wires[w][3], st.wires[w][4]>> \in darts
                  /\ WireOf(st, <<st.wires[w][3], st.wires[w][4]>>) = w)
       \cup C("ptstar", \A p \in DOMAIN P :
                LET inc == st.pts[p][5]
                    out(k) == <<inc[k][1], 1 - inc[k][2]>>
                IN /\ {out(k) : k \in DOMAIN inc} = OutDarts(S, p)
                   /\ Len(inc) = Cardinality(OutDarts(S, p))
                   /\ \A k \in DOMAIN inc :
                        F.next[Opp(out(k))] = out((k % Len(inc)) + 1))
       \cup C("vector", \A s \in DOMAIN S :
                st.segs[s][10] = Sub(P[S[s][2]], P[S[s][1]]))

(***************************************************************************)
(* P02  polygons = faces                                                   *)
(***************************************************************************)
OuterWire(st, g) == st.polys[g][1]
WireIdOf(st, w)  == WireOf(st, w[1])            \* id the code gives to cycle w
FacePoly(st, f)  == IF f = <<>> THEN st.outer ELSE PolyOfDart(st, f[1])
RotEq(u, v) == /\ Len(u) = Len(v)
               /\ \/ u = <<>>
                  \/ \E k \in DOMAIN u : \A i \in DOMAIN u : v[i] = u[((i + k - 2) % Len(u)) + 1]

FaceClauses(st, F, P, S) ==
    LET GI == Ids(st.polys) IN
    C("facecount", Cardinality(GI) = Cardinality(F.pos) + 1)
    \cup C("outerpoly", OuterWire(st, st.outer) \in RootWires(st)
                        /\ st.wires[OuterWire(st, st.outer)][2] = st.outer)
    \cup C("faceouter", \A w \in F.pos :
              LET g == PolyOfDart(st, w[1]) IN
              /\ g # st.outer /\ OuterWire(st, g) = WireIdOf(st, w))
    \cup C("faceinject", \A v, w \in F.pos : v # w => PolyOfDart(st, v[1]) # PolyOfDart(st, w[1]))
    \cup C("holeface", \A w \in F.neg : PolyOfDart(st, w[1]) = FacePoly(st, F.inface[w]))
    \cup C("holelist", \A w \in F.neg :
              WireIdOf(st, w) \in SetOf(st.wires[OuterWire(st, FacePoly(st, F.inface[w]))][5]))
    \cup C("vertices", /\ st.polys[st.outer][4] = <<>>
                       /\ \A w \in F.pos : RotEq([i \in DOMAIN w |-> HeadOf(S, w[i])],
                                                 st.polys[PolyOfDart(st, w[1])][4]))
    \cup C("freepoly", \A p \in DOMAIN F.ptface : st.pts[p][3] = FacePoly(st, F.ptface[p]))
    \cup C("freelist", \A g \in GI : SetOf(st.polys[g][2]) =
                          {p \in DOMAIN P : st.pts[p][3] = g})

(***************************************************************************)
(* P03  nesting                                                            *)
(* The parent of a component contour is the outer boundary of the face it  *)
(* lies in; the parent of a bounded face's boundary is its component's     *)
(* contour.                                                                *)
(***************************************************************************)
RootOf(st) == CHOOSE w \in Ids(st.wires) : st.wires[w][1] = 0
FaceWire(st, f) == IF f = <<>> THEN RootOf(st) ELSE WireIdOf(st, f)
ExpParent(st, F, w) == IF w \in F.pos THEN WireIdOf(st, F.contour[w])
                       ELSE FaceWire(st, F.inface[w])
RECURSIVE FaceDepth(_, _)
FaceDepth(F, f) == IF f = <<>> THEN 0 ELSE 2 + FaceDepth(F, F.inface[F.contour[f]])
RECURSIVE FaceUnder(_, _, _)    \* is face f equal to or nested in face g
FaceUnder(F, f, g) == \/ f = g
                      \/ f # <<>> /\ FaceUnder(F, F.inface[F.contour[f]], g)

NestingClauses(st, F, P, S) ==
    C("parent", \A w \in F.pos \cup F.neg :
          st.wires[WireIdOf(st, w)][1] = ExpParent(st, F, w))
    \cup C("childs", \A w \in Ids(st.wires) :
          SetOf(st.wires[w][5]) = {v \in Ids(st.wires) : st.wires[v][1] = w})
    \cup C("depth", /\ st.polys[st.outer][3] = 0
                    /\ \A f \in F.pos : st.polys[FacePoly(st, f)][3] = FaceDepth(F, f))
    \cup C("subtree", \A g \in F.pos \cup {<<>>} :
          SetOf(st.polys[FacePoly(st, g)][5]) =
             {FacePoly(st, f) : f \in {h \in F.pos \cup {<<>>} : FaceUnder(F, h, g)}})
=============================================================================
