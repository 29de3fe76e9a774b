---------------------------- MODULE LookupTrace ----------------------------
(***************************************************************************)
(* Table of bounding boxes (aabb_lookup.py) and map of ids (idmap.py).     *)
(* State: box  = id -> <<x0, y0, x1, y1>> of the objects in the table      *)
(*        live = ids registered in the id map, used = number of ids ever   *)
(*               in use at the same time                                   *)
(* Lines: new | add(id, box) | rm(id) | closest(point) res | isec(box) res *)
(*        | aabb(points, margin) box | append res | remove(id)             *)
(*        | content res                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, box, live, used
vars == <<l, box, live, used>>
Init == l = 1 /\ box = <<>> /\ live = {} /\ used = 0

Max(a, b) == IF a > b THEN a ELSE b
Sq(a) == a * a
(* squared distances of the point q from the nearest and the farthest point of box b *)
Near(q, b) == Sq(Max(0, Max(b[1] - q[1], q[1] - b[3]))) + Sq(Max(0, Max(b[2] - q[2], q[2] - b[4])))
Far(q, b)  == Sq(Max(q[1] - b[1], b[3] - q[1])) + Sq(Max(q[2] - b[2], b[4] - q[2]))
(* objects that may be the closest to q, whatever their shape inside the box *)
MayBeClosest(B, q) == {i \in DOMAIN B : \A j \in DOMAIN B : Near(q, B[i]) <= Far(q, B[j])}
Meets(b, c) == b[1] <= c[3] /\ c[1] <= b[3] /\ b[2] <= c[4] /\ c[2] <= b[4]

Elems(s) == {s[k] : k \in DOMAIN s}
Once(s) == Cardinality(Elems(s)) = Len(s)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
C(name, ok) == IF ok THEN {} ELSE {name}

Bad(e) ==
  IF e.exc # "" THEN {"exception"} ELSE
  CASE e.op = "closest" -> C("complete", MayBeClosest(box, e.args[1]) \subseteq Elems(e.res))
                           \cup C("alive", Elems(e.res) \subseteq DOMAIN box) \cup C("once", Once(e.res))
    [] e.op = "isec"    -> C("exact", Elems(e.res) = {i \in DOMAIN box : Meets(box[i], e.args[1])})
                           \cup C("once", Once(e.res))
    [] e.op = "aabb"    -> LET X == {p[1] : p \in Elems(e.args[1])} Y == {p[2] : p \in Elems(e.args[1])} m == e.args[2] IN
                           C("tight", e.res = <<MinOf(X) - m, MinOf(Y) - m, MaxOf(X) + m, MaxOf(Y) + m>>)
    [] e.op = "append"  -> C("fresh", e.res[1] \notin live) \cup C("dense", 0 <= e.res[1] /\ e.res[1] < Max(used, Cardinality(live) + 1))
                           \cup C("registered", e.res[2] = 1)
    [] e.op = "content" -> C("content", Elems(e.res) = live /\ Len(e.res) = Cardinality(live))
    [] OTHER -> {}

Next(e) ==
  /\ box' = CASE e.op = "new" -> <<>>
              [] e.op = "add" -> [i \in DOMAIN box \cup {e.args[1]} |-> IF i = e.args[1] THEN e.args[2] ELSE box[i]]
              [] e.op = "rm"  -> [i \in DOMAIN box \ {e.args[1]} |-> box[i]]
              [] OTHER -> box
  /\ live' = CASE e.op = "new" -> {}
               [] e.op = "append" /\ e.exc = "" -> live \cup {e.res[1]}
               [] e.op = "remove" -> live \ {e.args[1]}
               [] OTHER -> live
  /\ used' = IF e.op = "new" THEN 0 ELSE Max(used, Cardinality(live'))

Report(e, bad) == PrintT("@@BAD " \o ToJson([line |-> l, h |-> e.h, op |-> e.op, args |-> e.args,
                                           exc |-> e.exc, clauses |-> bad]))
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E e \in {Trace[l]} : \E bad \in {Bad(e)} : (IF bad = {} THEN TRUE ELSE Report(e, bad)) /\ Next(e)
Spec == Init /\ [][Step]_vars
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
