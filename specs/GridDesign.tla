----------------------------- MODULE GridDesign -----------------------------
(***************************************************************************)
(* Point sequences offered as grids: all sequences of four points of a     *)
(* 3 x 3 lattice, and all regular grids of six points with one point moved *)
(* or two swapped. A sequence has at most one shape; all are replayed.     *)
(***************************************************************************)
EXTENDS ZSurf, Json
CONSTANTS PRINT
Vecs == {<<1, 0>>, <<0, 2>>, <<2, 1>>, <<-1, 1>>}
VARIABLES pts, plain
Lat == {<<x, y>> : x, y \in 0..2}
Zs == <<1, 0, 3, -2, 5, 4>>
WithZ(s) == [k \in DOMAIN s |-> <<s[k][1], s[k][2], Zs[k]>>]
Reg(n, m, du, dv) == [k \in 1..(n * m) |-> V2(V2(<<0, 0>>, du, (k - 1) \div m), dv, (k - 1) % m)]
Skewed(du, dv) == du[1] * dv[2] # du[2] * dv[1]
Init == \/ \E a, b, c, d \in Lat : pts = WithZ(<<a, b, c, d>>) /\ plain = FALSE
        \/ \E n \in {2, 3} : \E du, dv \in Vecs : Skewed(du, dv) /\
              LET g == Reg(n, 6 \div n, du, dv) IN
              \/ pts = WithZ(g) /\ plain = TRUE
              \/ plain = FALSE /\ \E k \in 1..6, d \in {<<1, 0>>, <<0, -1>>, <<2, 1>>} : pts = WithZ([g EXCEPT ![k] = V2(@, d, 1)])
              \/ plain = FALSE /\ \E j, k \in 1..6 : j < k /\ pts = WithZ([g EXCEPT ![k] = g[j], ![j] = g[k]])
Next == UNCHANGED <<pts, plain>>
Spec == Init /\ [][Next]_<<pts, plain>>
Turned(g, n, m) == [k \in DOMAIN g |-> g[((k - 1) % n) * m + (k - 1) \div n + 1]]
Laws == /\ Cardinality(Shapes(pts)) <= 1
        /\ plain => Shapes(pts) # {}
        /\ (Len(pts) = 6 /\ ~plain) => \A s \in Shapes(pts) : FALSE
        (* walking the grid by columns gives the transposed shape *)
        /\ \A s \in Shapes(pts) : Shapes(Turned(pts, s[1], s[2])) = {<<s[2], s[1]>>}
Emit == ~PRINT \/ PrintT("@@T " \o ToJson(<<"grid", pts, 1, <<>>, 0>>))
=============================================================================
