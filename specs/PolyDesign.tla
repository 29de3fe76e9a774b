----------------------------- MODULE PolyDesign -----------------------------
(***************************************************************************)
(* The incremental bookkeeping of the polygon decomposition, structured    *)
(* like bgem/polygons/decomp.py: one action per atomic operation.          *)
(*                                                                         *)
(*  NewWire, AddDendrite, JoinWires, SplitPoly          (new_segment)      *)
(*  RmWire, RmDendrite, SplitWire, JoinPoly             (delete_segment)   *)
(*                                                                         *)
(* The points are fixed (PTS); a point without segments is a free point.   *)
(* A segment is named by its oriented end points <<a, b>>.                 *)
(* Invariant (checked on EVERY transition): the incremental wires,         *)
(* polygons, parents and free-point owners equal the from-scratch faces of *)
(* module Planar.                                                          *)
(***************************************************************************)
EXTENDS Planar, Json

CONSTANTS PTS,        \* sequence of <<x, y>>, multiples of 240
          MaxSegs,
          PRINT       \* print every transition (for replay in the real code)

VARIABLES segs,   \* set of <<a, b>>
          nxt,    \* dart -> dart
          wof,    \* dart -> wire
          wpar,   \* wire -> parent wire (-1 for the root wire 0)
          wpoly,  \* wire -> polygon
          pout,   \* polygon -> outer wire
          pfree,  \* free point -> polygon
          change  \* last polygon change report
vars == <<segs, nxt, wof, wpar, wpoly, pout, pfree, change>>

PT == DOMAIN PTS
P  == [p \in PT |-> PTS[p]]
SM(ss) == [s \in ss |-> s]          \* segment map for module Planar

Fresh(S) == CHOOSE n \in 0..Cardinality(S) : n \notin S
Used(ss) == UNION {{s[1], s[2]} : s \in ss}
Childs(par, w) == {v \in DOMAIN par : par[v] = w}
Without(f, D) == [x \in (DOMAIN f) \ D |-> f[x]]
Over(f, g) == g @@ f               \* override f by g

(* darts of the cycle of nx through d *)
CycleOf(nx, d) == SetOf(Walk(nx, d))

(* where a new outgoing direction at vertex v is inserted:                 *)
(* [prev |-> dart arriving before it, next |-> dart leaving after it]      *)
Insert(v, dir) ==
    LET outs == OutDarts(SM(segs), v)
        e == CHOOSE e \in outs : \A f \in outs \ {e} :
               CwBefore(dir, DirOf(P, SM(segs), e), DirOf(P, SM(segs), f))
        p == CHOOSE p \in DOMAIN nxt : nxt[p] = e
    IN [prev |-> p, next |-> e, wire |-> wof[p]]

Vec(a, b) == Sub(PTS[b], PTS[a])


(* Wire.contains_wire: ray casting from a point just left of one dart of   *)
(* the other wire.  D is the set of darts of the containing wire.          *)
InnerPoint(d) ==
    LET a == PTS[IF d[2] = 1 THEN d[1][1] ELSE d[1][2]]
        b == PTS[IF d[2] = 1 THEN d[1][2] ELSE d[1][1]]
        t == Sub(b, a)
    IN <<a[1] + (t[1] \div 2) - (t[2] \div 240), a[2] + (t[2] \div 2) + (t[1] \div 240)>>
InsideDarts(D, q) ==
    Cardinality({d \in D : RayHit(q, PTS[d[1][1]], PTS[d[1][2]])}) % 2 = 1
DartsOfWire(wf, w) == {d \in DOMAIN wf : wf[d] = w}
Contains(wf, w, v) == InsideDarts(DartsOfWire(wf, w), InnerPoint(CHOOSE d \in DartsOfWire(wf, v) : TRUE))

(* A new segment may be drawn where it meets nothing *)
CanDraw(a, b) ==
    /\ a # b /\ <<a, b>> \notin segs /\ <<b, a>> \notin segs
    /\ \A p \in PT \ {a, b} : ~OnSegment(PTS[p], PTS[a], PTS[b])
    /\ \A t \in segs : ~BadMeet(P, <<a, b>>, t)

Free(p) == p \notin Used(segs)

---------------------------------------------------------------------------
NewWire(a, b) ==
    /\ CanDraw(a, b) /\ Free(a) /\ Free(b)
    /\ LET s == <<a, b>> g == pfree[a] w == Fresh(DOMAIN wpar) IN
       /\ Assert(pfree[a] = pfree[b], "free ends in different polygons")
       /\ segs' = segs \cup {s}
       /\ nxt'  = Over(nxt, (<<s, 1>> :> <<s, 0>>) @@ (<<s, 0>> :> <<s, 1>>))
       /\ wof'  = Over(wof, (<<s, 1>> :> w) @@ (<<s, 0>> :> w))
       /\ wpar' = Over(wpar, w :> pout[g])
       /\ wpoly' = Over(wpoly, w :> g)
       /\ pout' = pout
       /\ pfree' = Without(pfree, {a, b})
       /\ change' = <<"none", {}, 0>>

AddDendrite(a, b) ==
    /\ CanDraw(a, b) /\ Free(a) # Free(b)
    /\ LET s == <<a, b>>
           root == IF Free(a) THEN b ELSE a
           tip  == IF Free(a) THEN a ELSE b
           o == IF root = a THEN <<s, 1>> ELSE <<s, 0>>
           i == Insert(root, Vec(root, tip))
       IN
       /\ segs' = segs \cup {s}
       /\ nxt' = Over(nxt, (i.prev :> o) @@ (o :> Opp(o)) @@ (Opp(o) :> i.next))
       /\ wof' = Over(wof, (o :> i.wire) @@ (Opp(o) :> i.wire))
       /\ pfree' = Without(pfree, {tip})
       /\ UNCHANGED <<wpar, wpoly, pout>>
       /\ change' = <<"shape", {pfree[tip]}, 0>>

Linked(s, ia, ib) ==
    Over(nxt, (ia.prev :> <<s, 1>>) @@ (ib.prev :> <<s, 0>>) @@
              (<<s, 1>> :> ib.next) @@ (<<s, 0>> :> ia.next))

JoinWires(a, b) ==
    /\ CanDraw(a, b) /\ ~Free(a) /\ ~Free(b)
    /\ \E ia \in {Insert(a, Vec(a, b))}, ib \in {Insert(b, Vec(b, a))} :
       LET s == <<a, b>>
           g == wpoly[ia.wire]
           holes == pout[g] \notin {ia.wire, ib.wire}
           keep == IF pout[g] = ia.wire THEN ia.wire ELSE ib.wire
           rm   == IF keep = ia.wire THEN ib.wire ELSE ia.wire
           par  == IF holes THEN keep ELSE wpar[keep]
       IN
       /\ ia.wire # ib.wire
       /\ Assert(wpoly[ia.wire] = wpoly[ib.wire], "join of wires of different polygons")
       /\ segs' = segs \cup {s}
       /\ nxt' = Linked(s, ia, ib)
       /\ wof' = [d \in DOMAIN wof \cup {<<s, 0>>, <<s, 1>>} |->
                    IF d \in DOMAIN wof /\ wof[d] # rm THEN wof[d] ELSE keep]
       /\ wpar' = [v \in DOMAIN wpar \ {rm} |-> IF wpar[v] = rm THEN par ELSE wpar[v]]
       /\ wpoly' = Without(wpoly, {rm})
       /\ UNCHANGED <<pout, pfree>>
       /\ change' = <<"shape", {g}, 0>>

SplitPoly(a, b) ==
    /\ CanDraw(a, b) /\ ~Free(a) /\ ~Free(b)
    /\ \E ia \in {Insert(a, Vec(a, b))}, ib \in {Insert(b, Vec(b, a))} :
       /\ ia.wire = ib.wire
       /\ \E nx \in {TLCEval(Linked(<<a, b>>, ia, ib))} :
          \E ldarts \in {CycleOf(nx, <<<<a, b>>, 1>>)} :
           LET s == <<a, b>>
               w == ia.wire
               g == wpoly[w]
               lw == Fresh(DOMAIN wpar)
               ng == Fresh(DOMAIN pout)
               split == pout[g] = w
           IN \E wf \in { TLCEval([d \in DOMAIN wof \cup {<<s, 0>>, <<s, 1>>} |->
                        IF d \in ldarts THEN lw ELSE IF d = <<s, 0>> THEN w ELSE wof[d]])} :
              \E outer \in {IF split THEN w ELSE IF Contains(wf, w, lw) THEN w ELSE lw} :
           LET inner == IF split THEN lw ELSE IF outer = w THEN lw ELSE w  \* outer wire of ng
           IN \E par1 \in {TLCEval(IF split THEN Over(wpar, lw :> wpar[w])
                       ELSE [v \in DOMAIN wpar \cup {lw} |->
                               IF v = outer THEN wpar[w]
                               ELSE IF v = inner THEN outer
                               ELSE IF wpar[v] = w THEN outer ELSE wpar[v]])} :
              \E moved \in {{h \in Childs(par1, pout[g]) : h # inner /\ Contains(wf, inner, h)}} :
           /\ segs' = segs \cup {s}
           /\ nxt' = nx
           /\ wof' = wf
           /\ wpar' = [v \in DOMAIN par1 |-> IF v \in moved THEN inner ELSE par1[v]]
           /\ wpoly' = [v \in DOMAIN wpoly \cup {lw} |->
                           IF v \in moved \/ v = inner THEN ng
                           ELSE IF v = lw \/ v = w THEN g ELSE wpoly[v]]
           /\ pout' = Over(pout, ng :> inner)
           /\ pfree' = [p \in DOMAIN pfree |->
                           IF pfree[p] = g /\ InsideDarts(DartsOfWire(wf, inner), PTS[p]) THEN ng ELSE pfree[p]]
           /\ change' = IF split THEN <<"split", {g}, ng>> ELSE <<"add", {g}, ng>>

---------------------------------------------------------------------------
PrevOf(d) == CHOOSE p \in DOMAIN nxt : nxt[p] = d
D0(s) == <<s, 0>>
D1(s) == <<s, 1>>
SelfA(s) == nxt[D0(s)] = D1(s)      \* a is a tip
SelfB(s) == nxt[D1(s)] = D0(s)      \* b is a tip

RmWire(s) ==
    /\ s \in segs /\ SelfA(s) /\ SelfB(s)
    /\ LET w == wof[D1(s)] g == wpoly[w] IN
       /\ segs' = segs \ {s}
       /\ nxt' = Without(nxt, {D0(s), D1(s)})
       /\ wof' = Without(wof, {D0(s), D1(s)})
       /\ wpar' = Without(wpar, {w}) /\ wpoly' = Without(wpoly, {w})
       /\ pout' = pout
       /\ pfree' = Over(pfree, (s[1] :> g) @@ (s[2] :> g))
       /\ change' = <<"none", {}, 0>>

RmDendrite(s) ==
    /\ s \in segs /\ SelfA(s) # SelfB(s)
    /\ LET tip == IF SelfB(s) THEN s[2] ELSE s[1]
           o == IF SelfB(s) THEN D1(s) ELSE D0(s)       \* leaves the root
           g == wpoly[wof[o]]
       IN
       /\ segs' = segs \ {s}
       /\ nxt' = Without(Over(nxt, PrevOf(o) :> nxt[Opp(o)]), {D0(s), D1(s)})
       /\ wof' = Without(wof, {D0(s), D1(s)})
       /\ pfree' = Over(pfree, tip :> g)
       /\ UNCHANGED <<wpar, wpoly, pout>>
       /\ change' = <<"shape", {g}, 0>>

Unlinked(s) ==
    Without(Over(nxt, (PrevOf(D1(s)) :> nxt[D0(s)]) @@ (PrevOf(D0(s)) :> nxt[D1(s)])), {D0(s), D1(s)})

(* wires of the component reached from wire v through the other sides *)
RECURSIVE Bubble(_, _, _)
Bubble(wf, done, todo) ==
    IF todo = {} THEN done
    ELSE Bubble(wf, done \cup todo,
                {wf[Opp(d)] : d \in {x \in DOMAIN wf : wf[x] \in todo}} \ (done \cup todo))

SplitWire(s) ==
    /\ s \in segs /\ ~SelfA(s) /\ ~SelfB(s) /\ wof[D0(s)] = wof[D1(s)]
    /\ \E nx \in {TLCEval(Unlinked(s))} :
       \E bdarts \in {CycleOf(nx, nxt[D1(s)])} :
       LET w == wof[D1(s)] g == wpoly[w]
           bw == Fresh(DOMAIN wpar)
       IN \E wf \in {TLCEval([d \in DOMAIN wof \ {D0(s), D1(s)} |-> IF d \in bdarts THEN bw ELSE wof[d]])} :
          \E outer \in {IF Contains(wf, w, bw) THEN w ELSE bw} :
       LET isouter == pout[g] = w
           inner == IF outer = w THEN bw ELSE w
           bub == Bubble(wf, {}, {inner}) \ {inner}
       IN
       /\ segs' = segs \ {s}
       /\ nxt' = nx /\ wof' = wf
       /\ wpoly' = Over(wpoly, bw :> g)
       /\ IF isouter
          THEN /\ pout' = Over(pout, g :> outer)
               /\ wpar' = [v \in DOMAIN wpar \cup {bw} |->
                     IF v = outer THEN wpar[w] ELSE IF v = inner THEN outer
                     ELSE IF v \in bub THEN inner
                     ELSE IF wpar[v] = w THEN outer ELSE wpar[v]]
          ELSE /\ pout' = pout
               /\ wpar' = [v \in DOMAIN wpar \cup {bw} |->
                     IF v = bw THEN wpar[w]
                     ELSE IF wpar[v] = w THEN (IF Contains(wf, w, v) THEN w ELSE bw) ELSE wpar[v]]
       /\ pfree' = pfree
       /\ change' = <<"shape", {g}, 0>>

JoinPoly(s) ==
    /\ s \in segs /\ wof[D0(s)] # wof[D1(s)]
    /\ LET l == wof[D1(s)] r == wof[D0(s)]
           same == wpar[l] = wpar[r]
           keep == IF same \/ wpar[l] = r THEN r ELSE l
           og == wpoly[keep]
           ng == wpoly[IF keep = r THEN l ELSE r]
           rm == pout[ng]
       IN
       /\ Assert(same \/ wpar[l] = r \/ wpar[r] = l, "sides of a segment are not related")
       /\ segs' = segs \ {s}
       /\ nxt' = Unlinked(s)
       /\ wof' = [d \in DOMAIN wof \ {D0(s), D1(s)} |-> IF wof[d] = rm THEN keep ELSE wof[d]]
       /\ wpar' = [v \in DOMAIN wpar \ {rm} |-> IF wpar[v] = rm THEN pout[og] ELSE wpar[v]]
       /\ wpoly' = [v \in DOMAIN wpoly \ {rm} |-> IF wpar[v] = rm THEN og ELSE wpoly[v]]
       /\ pout' = Without(pout, {ng})
       /\ pfree' = [p \in DOMAIN pfree |-> IF pfree[p] = ng THEN og ELSE pfree[p]]
       /\ change' = IF same THEN <<"join", {og}, ng>> ELSE <<"remove", {og}, ng>>

---------------------------------------------------------------------------
Init == /\ segs = {} /\ nxt = <<>> /\ wof = <<>>
        /\ wpar = (0 :> -1) /\ wpoly = (0 :> 0) /\ pout = (0 :> 0)
        /\ pfree = [p \in PT |-> 0]
        /\ change = <<"add", {0}, 0>>

Insertion == \E a, b \in PT : a < b /\ Cardinality(segs) < MaxSegs /\
               (NewWire(a, b) \/ AddDendrite(a, b) \/ JoinWires(a, b) \/ SplitPoly(a, b))
Removal == \E s \in segs : RmWire(s) \/ RmDendrite(s) \/ SplitWire(s) \/ JoinPoly(s)
Next == Insertion \/ Removal
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The incremental state agrees with the theory of faces. *)
Agrees(ss, nx, wf, par, wp, po, fr) ==
    LET S == SM(ss)
        F == TLCEval(Faces(P, S))
        wid(c) == wf[c[1]]
        fpoly(f) == IF f = <<>> THEN 0 ELSE wp[wid(f)]
        fwire(f) == IF f = <<>> THEN 0 ELSE wid(f)
    IN /\ nx = F.next
       /\ \A d \in DOMAIN nx : wf[d] = wf[nx[d]]
       /\ Cardinality({wf[d] : d \in DOMAIN wf}) = Cardinality(F.pos \cup F.neg)
       /\ DOMAIN par = {wf[d] : d \in DOMAIN wf} \cup {0} /\ DOMAIN wp = DOMAIN par
       /\ Cardinality(DOMAIN po) = Cardinality(F.pos) + 1
       /\ po[0] = 0 /\ wp[0] = 0
       /\ \A c \in F.pos : po[wp[wid(c)]] = wid(c) /\ wp[wid(c)] # 0
       /\ \A c, e \in F.pos : c # e => wp[wid(c)] # wp[wid(e)]
       /\ \A c \in F.neg : wp[wid(c)] = fpoly(F.inface[c]) /\ par[wid(c)] = fwire(F.inface[c])
       /\ \A c \in F.pos : par[wid(c)] = wid(F.contour[c])
       /\ DOMAIN fr = PT \ Used(ss)
       /\ \A p \in DOMAIN fr : fr[p] = fpoly(F.ptface[p])

TypeInv == Agrees(segs, nxt, wof, wpar, wpoly, pout, pfree)
(* checked for every transition, also those that lead to a known drawing *)
StepInv == [][Agrees(segs', nxt', wof', wpar', wpoly', pout', pfree')]_vars

(* The report names exactly what happened to the polygon set. *)
ReportInv == [][ LET k == change'[1] IN
    /\ DOMAIN pout' \ DOMAIN pout = (IF k \in {"split", "add"} THEN {change'[3]} ELSE {})
    /\ DOMAIN pout \ DOMAIN pout' = (IF k \in {"join", "remove"} THEN {change'[3]} ELSE {})
    /\ change'[2] \subseteq DOMAIN pout' /\ change'[2] \subseteq DOMAIN pout ]_vars

(* Drawings are what distinguishes states: the rest is a function of them   *)
(* up to the choice of ids (StepInv).                                       *)
View == segs

Emit == PRINT => LET ins == segs' \ segs del == segs \ segs' IN
    PrintT("@@T " \o ToJson(<<segs, IF ins # {} THEN <<"new", CHOOSE s \in ins : TRUE>>
                                    ELSE <<"del", CHOOSE s \in del : TRUE>>>>))
=============================================================================
