---------------------------- MODULE AffineDesign ----------------------------
(***************************************************************************)
(* Every shape of the factory under every sequence of up to MaxOps maps,   *)
(* copies and groups of a small family: laws of measures and centres.      *)
(* Replayed on the library.                                                *)
(***************************************************************************)
EXTENDS Affine, Json, TLC
CONSTANTS MaxOps, PRINT
VARIABLES bs, ss, prog
View == <<bs, ss>>
Firsts == << <<"simplex", 0>>, <<"simplex", 1>>, <<"simplex", 2>>, <<"simplex", 3>>,
             <<"box", <<I(1), I(2), <<3, 2>>>>, <<Half, I(0), I(-1)>>>>, <<"rect", <<I(3), I(1)>>, <<I(1), I(1), I(-2)>>>>, <<"frame", <<I(2), Half>>>>,
             <<"cyl", I(1), <<I(0), I(-3), I(4)>>, I(5), <<I(1), I(2), I(0)>>>>,
             <<"poly", <<Vi(<<0, 0, 1>>), Vi(<<4, 0, 1>>), Vi(<<4, 4, -3>>), Vi(<<1, 1, 0>>)>>>> >>
First(p) == CASE p[1] = "simplex" -> Simplex(p[2]) [] p[1] = "box" -> Box(p[2], p[3]) [] p[1] = "rect" -> Rect(p[2], p[3])
              [] p[1] = "frame" -> Rect(<<Mul(I(2), p[2][1]), Mul(I(2), p[2][2])>>, O3) [] p[1] = "poly" -> Poly(p[2])
              (* where the mantle is closed does not matter here *)
              [] OTHER -> Cyl(p[2], p[3], p[4], p[5], << VAdd(p[5], <<I(1), Zero, Zero>>), VAdd(VAdd(p[5], <<I(1), Zero, Zero>>), p[3]) >>)
Init == \E k \in DOMAIN Firsts : bs = <<TLCEval(First(Firsts[k]))>> /\ ss = << <<1>> >> /\ prog = <<Firsts[k]>>
Mine(i) == {ss[i][k] : k \in DOMAIN ss[i]}
Map(i, F(_), call) == /\ bs' = [k \in DOMAIN bs |-> IF k \in Mine(i) THEN TLCEval(F(bs[k])) ELSE bs[k]]
                      /\ ss' = ss /\ prog' = Append(prog, call)
At == <<I(1), <<-3, 2>>, Half>>
Spins == {<<1, 0, 0, 1>>, <<1, 1, 1, 1>>, <<0, 1, -1, 0>>, <<2, 1, 0, 0>>}
Fresh(q) == q # <<2, 1, 0, 0>> \/ \A k \in DOMAIN prog : prog[k][1] # "cyl" /\ ~(prog[k][1] = "rotate" /\ prog[k][3] = q)
Stretch == {<<I(2), Half, I(1)>>, <<I(-1), I(1), <<3, 2>>>>}
Next == /\ Len(prog) <= MaxOps
        /\ \E i \in DOMAIN ss :
             \/ \E t \in {<<I(3), <<-1, 2>>, I(2)>>} : Map(i, LAMBDA b : Shifted(b, t), <<"translate", i, t>>)
             \/ \E q \in Spins, o \in {O3, At} : Fresh(q) /\ Map(i, LAMBDA b : Turned(b, q, o), <<"rotate", i, q, o>>)
             \/ \E f \in Stretch, o \in {O3, At} : /\ \A k \in Mine(i) : ~bs[k].pi
                                                   /\ Map(i, LAMBDA b : Scaled(b, f, o), <<"scale", i, f, o>>)
             \/ /\ Len(ss) < 3 /\ bs' = bs \o [k \in DOMAIN ss[i] |-> bs[ss[i][k]]]
                /\ ss' = Append(ss, [k \in DOMAIN ss[i] |-> Len(bs) + k]) /\ prog' = Append(prog, <<"copy", i>>)
             \/ \E j \in DOMAIN ss : /\ i # j /\ Mine(i) \cap Mine(j) = {} /\ Len(ss) < 3
                                     /\ ss' = Append(ss, ss[i] \o ss[j]) /\ bs' = bs /\ prog' = Append(prog, <<"group", <<i, j>>>>)
Spec == Init /\ [][Next]_<<bs, ss, prog>>
(* centre and measure agree with the vertices however the body was moved *)
FromVertices(b) ==
  LET v == b.v IN
  /\ b.d = 0 => b.c = v[1]
  /\ b.d = 1 => b.w = VSub(v[2], v[1]) /\ b.c = Mean(v)
  /\ b.d = 2 /\ Len(v) = 3 => b.w = VMul(Half, Cross(VSub(v[2], v[1]), VSub(v[3], v[1]))) /\ b.c = Mean(v)
  /\ b.d = 2 /\ Len(v) = 4 => \A k \in 1..4 : Dot(b.w, VSub(v[k], v[1])) = Zero /\ Dot(b.w, VSub(b.c, v[1])) = Zero
  /\ b.d = 3 /\ Len(v) = 4 => /\ Mul(I(6), b.w[1]) = AbsQ(Dot(VSub(v[2], v[1]), Cross(VSub(v[3], v[1]), VSub(v[4], v[1]))))
                              /\ b.c = Mean(v)
  /\ b.d = 3 /\ Len(v) = 8 => /\ b.c = Mean(v)
                              /\ b.w[1] = AbsQ(Dot(VSub(v[2], v[1]), Cross(VSub(v[3], v[1]), VSub(v[5], v[1]))))
  /\ Measure(b)[1] >= 0
Laws == \A k \in DOMAIN bs : FromVertices(bs[k])
Steps == [][LET op == prog'[Len(prog')] IN
    /\ op[1] \in {"translate", "rotate"} => \A k \in DOMAIN bs : Measure(bs'[k]) = Measure(bs[k])
    /\ op[1] \in {"translate", "rotate", "scale"} => \A k \in DOMAIN bs \ Mine(op[2]) : bs'[k] = bs[k]
    (* turning back *)
    /\ op[1] = "rotate" => \A k \in Mine(op[2]) : Turned(bs'[k], <<-op[3][1], op[3][2], op[3][3], op[3][4]>>, op[4]) = bs[k]
    /\ op[1] = "scale" => \A k \in Mine(op[2]) : bs[k].d = 3 => Measure(bs'[k]) = Mul(Measure(bs[k]), AbsQ(Mul(op[3][1], Mul(op[3][2], op[3][3]))))
    ]_<<bs, ss, prog>>
Emit == ~PRINT \/ Len(prog') <= MaxOps \/ PrintT("@@T " \o ToJson(prog'))
=============================================================================
