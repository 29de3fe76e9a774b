----------------------------- MODULE IsecDesign -----------------------------
(***************************************************************************)
(* All pairs of a unit sheet and a plane sheet out of a small family: laws *)
(* of the crossings; every pair is replayed.                               *)
(***************************************************************************)
EXTENDS Isec, Json
CONSTANTS Ps, As, Bs, Ns, PRINT
VARIABLES s1, s2
Sheet(n, m) == [p |-> <<0, 0, 0>>, a |-> <<4, 0, 0>>, b |-> <<0, 4, 0>>, nu |-> n, nv |-> m]
VecsOf(S) == {<<x[1], x[2], x[3]>> : x \in S}
MCPs == {<<x, 2, z>> : x \in {0, 1, 4}, z \in {-2, 0, -1}}
MCAs == {<<4, 0, 4>>, <<0, 4, 4>>, <<0, 0, 4>>, <<4, 4, 0>>, <<2, -4, 8>>}
MCBs == {<<0, 2, 0>>, <<4, 0, 0>>, <<0, -4, 4>>, <<1, 1, 1>>}
Init == /\ \E n \in Ns, m \in Ns : s1 = Sheet(n, m)
        /\ \E p \in Ps, a \in As, b \in Bs, n \in Ns : Vec(a, b) # <<0, 0, 0>>
              /\ s2 = [p |-> p, a |-> a, b |-> b, nu |-> n, nv |-> 2]
Spec == Init /\ [][FALSE]_<<s1, s2>>
(* a crossing lies on both surfaces, is a crossing of a knot line, and lies in some patch of each *)
Laws == \A c \in Crossings(s1, s2) :
          /\ Place(s1, c.uv1) = c.xyz
          /\ OnKnot(IF c.th[1] = 0 THEN s1.nu ELSE s1.nv, c.uv1[1 + c.th[1]])
          /\ Patches(s1, c.uv1) # {} /\ Patches(s2, c.uv2) # {}
          /\ Cardinality(Patches(s1, c.uv1)) <= 4
(* turning both surfaces (x, y, z) -> (z, x, y) keeps the parameters *)
Turn(x) == <<x[3], x[1], x[2]>>
Turned(s) == [s EXCEPT !.p = Turn(@), !.a = Turn(@), !.b = Turn(@)]
Symmetry == {<<c.th, c.uv1, c.uv2>> : c \in Crossings(s1, s2)} = {<<c.th, c.uv1, c.uv2>> : c \in Crossings(Turned(s1), Turned(s2))}
Emit == ~PRINT \/ PrintT("@@T " \o ToJson(<<s1, s2>>))
=============================================================================
