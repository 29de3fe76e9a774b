---------------------------- MODULE ZSurfDesign -----------------------------
(***************************************************************************)
(* All sequences of up to MaxOps calls on Z surfaces from a small set of   *)
(* transforms: laws of transforms, copies and applied heights. Replayed.   *)
(***************************************************************************)
EXTENDS ZSurf, Json
CONSTANTS MaxOps, Quads, PRINT
VARIABLES ss, prog
View == ss
Rats(P) == [i \in DOMAIN P |-> [j \in DOMAIN P[i] |-> I(P[i][j])]]
UVs == << <<Zero, One>>, <<Q(1, 4), Half>>, <<One, Q(3, 4)>> >>
Quad1 == << <<-1, 4>>, <<0, 0>>, <<4, 1>> >>
Quad2 == << <<0, 2>>, <<0, 0>>, <<4, 0>>, <<6, 5>> >>
P1 == << <<0, 2, 4>>, <<2, -3, 8>>, <<5, 6, 1>> >>
P2 == << <<1, 4>>, <<-2, 7>>, <<0, 3>> >>
Call(q) == IF q = 1 THEN <<"make", Quad1, <<2, 2>>, <<1, 1>>, P1>> ELSE <<"make", Quad2, <<1, 1>>, <<2, 1>>, P2>>
First(q) == Surf(Rats(Call(q)[2]), Call(q)[3][1], Call(q)[3][2], Call(q)[4][1], Call(q)[4][2], Rats(Call(q)[5]), UVs)
Turn == << <<Zero, I(-1), One>>, <<One, Zero, Zero>> >>
Skew == << <<I(2), One, Zero>>, <<Zero, Half, I(-3)>> >>
Init == \E q \in Quads : ss = <<TLCEval(First(q))>> /\ prog = <<Call(q)>>
Go(t, op) == ss' = t /\ prog' = Append(prog, op)
Next == /\ Len(prog) <= MaxOps
        /\ \E i \in DOMAIN ss :
             \/ \E xy \in {<<>>, Turn, Skew} : \E z \in {<<>>, <<I(-2), One>>, <<Half, I(3)>>} :
                  (xy # <<>> \/ z # <<>>) /\ Go([ss EXCEPT ![i] = Transformed(@, xy, z)], <<"transform", i, xy, z>>)
             \/ ss[i].z # IdZ /\ Go([ss EXCEPT ![i] = TLCEval(Applied(@))], <<"apply", i>>)
             \/ Len(ss) < 2 /\ Go(Append(ss, ss[i]), <<"copy", i>>)
             \/ prog[Len(prog)][1] # "full" /\ Go(ss, <<"full", i>>)
Spec == Init /\ [][Next]_<<ss, prog>>
V(s) == [k \in DOMAIN UVs |-> Value(s, UVs[k][1], UVs[k][2])]
Laws == \A i \in DOMAIN ss : LET s == ss[i] b == Aabb(s) IN
    /\ \A k \in DOMAIN UVs : \A d \in 1..3 : Leq(b[1][d], V(s)[k][d]) /\ Leq(V(s)[k][d], b[2][d])
    /\ V(s) = [k \in DOMAIN UVs |-> At(s, UVs[k][1], UVs[k][2], s.hs[k])]
    /\ s.mid = HeightAt(s, Half, Half)
    (* transforms keep the centre up to the shift *)
    /\ Centre(s) = LET o == Centre([s EXCEPT !.m = IdXY, !.z = IdZ]) IN <<Add(o[1], s.m[1][3]), Add(o[2], s.m[2][3]), Add(o[3], s.z[2])>>
    /\ Transformed(s, IdXY, IdZ) = [s EXCEPT !.m = IdXY, !.z = IdZ]
Steps == [][LET op == prog'[Len(prog')] i == op[2] IN
    /\ op[1] \in {"transform", "apply"} => \A j \in DOMAIN ss \ {i} : ss'[j] = ss[j]
    /\ op[1] \in {"apply", "full"} => V(ss'[i]) = V(ss[i])
    /\ op[1] = "copy" => V(ss'[Len(ss')]) = V(ss[i])
    (* a transform replaces the one in force *)
    /\ op[1] = "transform" => \A xy \in {Turn, Skew} : Transformed(ss'[i], xy, IdZ) = Transformed(ss[i], xy, IdZ)]_<<ss, prog>>
Emit == ~PRINT \/ Len(prog') <= MaxOps \/ PrintT("@@T " \o ToJson(prog'))
=============================================================================
