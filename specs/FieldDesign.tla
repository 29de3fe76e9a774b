----------------------------- MODULE FieldDesign ----------------------------
(***************************************************************************)
(* All expressions of up to MaxOps mesh size fields over a fixed geometry  *)
(* (a block and a rectangle beside it); the laws of the combinations are   *)
(* checked at a lattice of points, and every expression is replayed.       *)
(***************************************************************************)
EXTENDS Fields, Json
CONSTANTS MaxOps, PRINT
VARIABLES fs, prog
View == fs
Bodies == << << <<0, 0, 0>>, <<256, 128, 128>> >>, << <<320, 0, 0>>, <<448, 128, 0>> >> >>
Init == fs = <<>> /\ prog = << <<"new", Bodies>> >>
(* entities are known here by the body they belong to: 1, 2 (all of its parts) *)
Add(f, op) == fs' = Append(fs, f) /\ prog' = Append(prog, op)
P0 == << <<0, 0, 0>>, <<448, 128, 0>> >>
E0 == << << <<0, 0, 0>>, <<256, 0, 0>> >> >>
Ids == DOMAIN fs
Tainted == {i \in Ids : \E j \in Uses(fs, i) : fs[j].op = "restrict"}
Next ==
  /\ Len(fs) < MaxOps
  /\ \/ Add([op |-> "nodes", pts |-> P0], <<"nodes", <<P0>>>>)
     \/ Add([op |-> "edges", segs |-> E0, n |-> 8], <<"edges", <<E0, 8>>>>)
     \/ Add([op |-> "box", lo |-> <<64, 0, 0>>, hi |-> <<352, 64, 64>>, vin |-> 20, vout |-> 90], <<"box", <<<<64, 0, 0>>, <<352, 64, 64>>, 20, 90>>>>)
     \/ Add([op |-> "box", vin |-> 50, vout |-> -1, lo |-> <<-192, -192, -192>>, hi |-> <<192, 192, 192>>], <<"constant", <<50, 192>>>>)
     \/ \E i \in Ids \ Tainted : \E sb \in {10, 160} : \E sig \in BOOLEAN :
          Add([op |-> "threshold", f |-> i, a |-> 64, sa |-> 32, b |-> 192, sb |-> sb, sig |-> sig],
              <<"threshold", <<i - 1, 64, 32, 192, sb, IF sig THEN 1 ELSE 0>>>>)
     \/ \E i, j \in Ids : i < j /\ \E op \in {"min", "max"} : Add([op |-> op, fs |-> <<i, j>>], <<op, <<<<i - 1, j - 1>>>>>>)
     \/ \E i \in Ids : \E s \in {1, 2} : \E b \in {0, 1} :
          Add([op |-> "restrict", f |-> i, ents |-> <<s>>, clo |-> <<s>>], <<"restrict", <<i - 1, <<s - 1>>, b>>>>)
Spec == Init /\ [][Next]_<<fs, prog>>

Points == {<<x, y, z>> : x \in {0, 100, 256, 400}, y \in {0, 64, 128}, z \in {0, 100}}
V(i, p, s) == Ev(fs, i, p, s, 0)
(* laws of the last field at every point *)
Laws == fs = <<>> \/ \A p \in Points, s \in {1, 2} :
    LET n == Len(fs) f == fs[n] v == V(n, p, s) IN
    /\ v[1] <= v[2] /\ v[2] >= 0
    /\ f.op \in {"nodes", "edges"} => (v[1] = 0 => \E q \in (IF f.op = "nodes" THEN Rng(f.pts) ELSE {Foot(p, f.segs[1])}) : Sq(p, q) < 64)
    /\ f.op = "threshold" => LET d == V(f.f, p, s) IN
          /\ v[1] >= Lo2(f.sa, f.sb) * 64 - 1 - Abs(f.sb - f.sa) /\ v[2] <= Hi2(f.sa, f.sb) * 64 + 1 + Abs(f.sb - f.sa)
          /\ (~f.sig /\ d[2] <= f.a * 64) => v[1] <= f.sa * 64 /\ f.sa * 64 <= v[2]
          /\ (~f.sig /\ d[1] >= f.b * 64) => v[1] <= f.sb * 64 /\ f.sb * 64 <= v[2]
    /\ f.op = "min" => \A j \in Rng(f.fs) : v[2] <= V(j, p, s)[2]
    /\ f.op = "max" => \A j \in Rng(f.fs) : v[1] >= V(j, p, s)[1]
    /\ f.op = "restrict" => v = IF s \in Rng(f.ents) THEN V(f.f, p, s) ELSE <<INF, INF>>
Emit == ~PRINT \/ PrintT("@@T " \o ToJson(prog' \o << <<"background", <<Len(fs')-1>>>>, <<"mesh", <<3>>>> >>))
=============================================================================
