------------------------------- MODULE MCFuncs -------------------------------
EXTENDS Funcs
VARIABLES gCfg, gState, gHist
CONSTANTS DEPTH, MAX
Rot1 == {<< <<<<-1>>>>, <<<<-1>>>> >>}
Rot2 == {<< <<<<0, 1>>, <<-1, 0>>>>, <<<<0, -1>>, <<1, 0>>>> >>, << <<<<1, 1>>, <<0, 1>>>>, <<<<1, -1>>, <<0, 1>>>> >>}
Rot3 == {<< <<<<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>>>, <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>>> >>}
Exact == {"Sphere", "Schwefel", "Rosenbrock", "BoundedLinear", "Funnel", "Rastrigin", "Weierstrass", "Linear", "Glasmachers", "Cigar"}
Cfgs == {[depth |-> DEPTH, max |-> MAX, bases |-> {b}, dims |-> {d}, offs |-> {0, 3}, pts |-> {-1, 2}, rots |-> <<Rot1, Rot2, Rot3>>] : b \in Exact, d \in {1, 2, 3}}
INSTANCE GenBase WITH Init0 <- XInit0, Ops <- XOps, Next0 <- XNext0
(* the declared optimum, carried through the wrappers, is where the wrapped formula is zero *)
OptInv == \A k \in DOMAIN gState.fs : LET f == gState.fs[k] IN Bounded(f) /\ ~Soft(f) => LET e == Expect(gState, f, f.xo) IN e[1] /\ e[2] = Zero
(* and no other point is better in the direction of the function *)
BestInv == \A k \in DOMAIN gState.fs : LET f == gState.fs[k] IN Bounded(f) /\ ~Soft(f) =>
             \A x \in Pts(f.dim, {-2, 0, 1, 4}) : LET e == Expect(gState, f, x) IN e[1] => IF f.min THEN NonNeg(e[2]) ELSE NonNeg(Neg(e[2]))
(* soft constraints never make a point better *)
SoftInv == \A k \in DOMAIN gState.fs : LET f == gState.fs[k] IN f.ws # <<>> /\ f.ws[1].w = "soft" =>
             \A x \in Pts(f.dim, {-14, 0, 3}) : LET e == Expect(gState, f, x)
                                                    u == Expect(gState, [f EXCEPT !.ws = Tail(@)], x)
                                                    gain == IF f.min THEN Add(e[2], Neg(u[2])) ELSE Add(u[2], Neg(e[2]))
                                                IN e[1] => NonNeg(gain)
(* two opposites cancel *)
TwiceInv == \A k \in DOMAIN gState.fs : LET f == gState.fs[k] IN Len(f.ws) >= 2 /\ f.ws[1].w = "opposite" /\ f.ws[2].w = "opposite" =>
             \A x \in Pts(f.dim, {-2, 1}) : Expect(gState, f, x) = Expect(gState, [f EXCEPT !.ws = Tail(Tail(@))], x)
ASSUME \A n \in -40..40 : \A d \in {1, 2, 4, 10} : Neg(Neg(Rat(n, d))) = Rat(n, d) /\ Add(Rat(n, d), Rat(-n, d)) \in {Zero, <<-1, 4095>>} /\ (n >= 0) = (Rat(n, d)[1] >= 0)
ASSUME \A b \in {"ConstDeb", "ConstSrn", "ConstBnh", "ConstTnk"} : \E x \in [1..2 -> -40..40] : Feas(b, x)
ASSUME \E x \in [1..2 -> 0..12] : \E y \in [1..2 -> {2, 6}] : \E z \in {0, 8} : Feas("ConstOsy", <<x[1], x[2], y[1], 0, y[2], z>>)
=============================================================================
