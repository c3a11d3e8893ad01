-------------------------------- MODULE Funcs --------------------------------
(* Benchmark functions and their transformations.
   The state holds the live function objects; each is a base function under a stack of wrappers (outermost first).
   Points have half-integer coordinates and are written as integers 2x.  A value is a pair <<h, l>> standing for h + l/4096, 0 <= l < 4096.
   A base function has an exact formula, or is opaque: then the value at a point is what was first seen there, and is never negative. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NONE == -1000000
If(b, x) == IF b THEN {} ELSE {x}
Abs(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Sum(q) == LET RECURSIVE F(_)
              F(k) == IF k = 0 THEN 0 ELSE q[k] + F(k - 1)
          IN  F(Len(q))
SumF(lo, hi, f(_)) == LET RECURSIVE G(_)
                          G(k) == IF k > hi THEN 0 ELSE f(k) + G(k + 1)
                      IN  G(lo)
(* ---------------------------------------------------------------- values *)
Rat(n, d) == <<n \div d, ((n % d) * 4096) \div d>>          \* d <= 2^19
Add(a, b) == LET l == a[2] + b[2] IN <<a[1] + b[1] + (l \div 4096), l % 4096>>
Neg(a) == IF a[2] = 0 THEN <<-a[1], 0>> ELSE <<-a[1] - 1, 4096 - a[2]>>
Near(a, b, tol) == LET h == a[1] - b[1] IN Abs(h) <= 1 /\ Abs(h * 4096 + a[2] - b[2]) <= tol
Zero == <<0, 0>>
NonNeg(a) == a[1] >= 0 \/ (a[1] = -1 /\ a[2] >= 4094)
Whole(x) == \A k \in DOMAIN x : x[k] % 2 = 0
(* -------------------------------------------------------- base functions *)
Ones(d, v) == [k \in 1..d |-> v]
(* names, least and largest dimension, default dimension, optimum, desired value *)
Uni == {"Sphere", "Schwefel", "Cigar", "Tablet", "Elli", "SharpRBis", "DiffPow", "Rosenbrock", "Glasmachers", "BoundedLinear", "StepElli", "AttractiveSector"}
Multi == {"Funnel", "Rastrigin", "Weierstrass", "SchaffersF7", "Ackley", "Griewank", "BucheRastrigin", "GriewankRosenbrock", "Schwefel_2_13", "Schwefel20",
          "GallagherGauss101Me", "GallagherGauss21Hi", "Katsuura", "LunacekBiRastrigin", "Branin"}
Unb == {"Linear", "ParabR", "SharpR"}
MinDim(b) == IF b \in Multi \/ b \in {"Cigar", "Tablet", "Elli", "StepElli", "DiffPow", "Glasmachers", "BoundedLinear"} THEN 2 ELSE 1
MaxDim(b) == IF b = "Branin" THEN 2 ELSE 999
DefDim(b) == IF b = "Rosenbrock" THEN 2 ELSE MinDim(b)
Moving == {"AttractiveSector", "Schwefel_2_13", "Schwefel20", "GallagherGauss101Me", "GallagherGauss21Hi", "LunacekBiRastrigin", "Branin"}   \* optimum not at half-integers
XOpt(b, d, sg) == CASE b \in {"Rosenbrock", "GriewankRosenbrock"} -> Ones(d, 2)
                    [] b = "Funnel" -> Ones(d, 5)
                    [] b = "BoundedLinear" -> [k \in 1..d |-> 10 * sg[k]]
                    [] OTHER -> Ones(d, 0)
Desired(b) == IF b \in Multi THEN "0.001" ELSE IF b \in Unb THEN "-1000" ELSE IF b = "BBOB" THEN "1e-08" ELSE "1e-10"
Penal(b) == b = "Schwefel20"
(* <<TRUE, value>> where the formula is exact, <<FALSE>> otherwise *)
No == <<FALSE>>
Ok(n, d) == <<TRUE, Rat(n, d)>>
Small(x, m) == \A k \in DOMAIN x : Abs(x[k]) <= m
Dot(x) == Sum([k \in DOMAIN x |-> Sq(x[k])])
RootOf(n) == LET S == {r \in 0..60 : r * r = n} IN IF S = {} THEN -1 ELSE CHOOSE r \in S : TRUE
AckT == <<3625385, 6593599, 9023767, 11013421, 12642411, 13976116, 15068061, 15962070>>       \* 20 (1 - exp(-r/5)) in 1e-6
F(b, x, sg) ==
  LET d == Len(x)
      tail == SubSeq(x, 2, d)
      dt == Dot(tail)
  IN CASE b = "Sphere" -> IF Small(x, 4000) THEN Ok(Dot(x), 4) ELSE No
       [] b = "Schwefel" -> IF Small(x, 400) THEN Ok(SumF(1, d, LAMBDA i : Sq(SumF(1, i, LAMBDA j : x[j]))), 4) ELSE No
       [] b = "Cigar" -> IF Small(x, 20) THEN Ok(Sq(x[1]) + 1000000 * dt, 4) ELSE No
       [] b = "Tablet" -> IF Small(x, 40) THEN Ok(1000000 * Sq(x[1]) + dt, 4) ELSE No
       [] b = "Elli" -> IF Small(x, 30) /\ d \in {2, 3, 4, 7} THEN Ok(SumF(1, d, LAMBDA i : Pow(10, (6 * (i - 1)) \div (d - 1)) * Sq(x[i])), 4) ELSE No
       [] b = "SharpRBis" -> IF Small(x, 60) /\ RootOf(dt) >= 0 THEN Ok(Sq(x[1]) + 200 * RootOf(dt), 4) ELSE No
       [] b = "DiffPow" -> IF Whole(x) /\ Small(x, 10) /\ d \in {2, 3, 6} THEN Ok(SumF(1, d, LAMBDA i : Pow(Abs(x[i]) \div 2, 2 + (10 * (i - 1)) \div (d - 1))), 1) ELSE No
       [] b = "Rosenbrock" -> IF Small(x, 20) THEN Ok(SumF(1, d - 1, LAMBDA i : 100 * Sq(Sq(x[i]) - 2 * x[i + 1]) + 4 * Sq(x[i] - 2)), 16) ELSE No
       [] b = "Glasmachers" -> LET m == d \div 2
                                   A == Dot(SubSeq(x, 1, m))
                                   B == Dot(SubSeq(x, m + 1, d))
                                   a == RootOf(A)
                                   c == RootOf(B)
                                   r == IF a >= 0 /\ c >= 0 THEN RootOf(100 * c * c + 20 * a * c) ELSE -1
                               IN IF B = 0 /\ a >= 0 THEN Ok(a, 20) ELSE IF A = 0 /\ c >= 0 THEN Ok(c, 1) ELSE IF r >= 0 THEN Ok(a + 10 * c + r, 20) ELSE No
       [] b = "BoundedLinear" -> IF d = 2 /\ Small(x, 4000) THEN Ok(SumF(1, 2, LAMBDA i : Pow(10, i - 1) * (10 - (IF x[i] * sg[i] > 10 THEN 10 ELSE x[i] * sg[i]))), 2) ELSE No
       [] b = "Funnel" -> IF Small(x, 400) THEN LET u == Dot([k \in 1..d |-> x[k] - 5])
                                                    v == 4 * d + Dot([k \in 1..d |-> x[k] + 5])
                                                IN Ok(IF u < v THEN u ELSE v, 4) ELSE No
       [] b = "Rastrigin" -> IF Small(x, 400) THEN Ok(Dot(x) + SumF(1, d, LAMBDA i : IF x[i] % 2 = 0 THEN 0 ELSE 80), 4) ELSE No
       [] b = "Weierstrass" -> Ok(4 * Cardinality({k \in 1..d : x[k] % 2 = 1}), 1)
       [] b = "Ackley" -> LET r == Abs(x[1]) \div 2
                          IN IF Whole(x) /\ r <= 8 /\ \A k \in 1..d : Abs(x[k]) = 2 * r THEN IF r = 0 THEN Ok(0, 1) ELSE <<TRUE, <<AckT[r] \div 1000000, ((AckT[r] % 1000000) * 64) \div 15625>>>> ELSE No
       [] b = "Katsuura" -> IF Whole(x) THEN Ok(0, 1) ELSE No
       [] b = "Linear" -> Ok(Sum(x), 2)
       [] b = "ParabR" -> IF Small(x, 400) THEN Ok(100 * dt - 2 * x[1], 4) ELSE No
       [] b = "SharpR" -> IF Small(x, 60) /\ RootOf(dt) >= 0 THEN Ok(100 * RootOf(dt) - x[1], 2) ELSE No
       [] b = "LennardJones" -> LET N == d \div 3
                                    n(i, j) == Sq(x[3 * i - 2] - x[3 * j - 2]) + Sq(x[3 * i - 1] - x[3 * j - 1]) + Sq(x[3 * i] - x[3 * j])
                                    P == {p \in (1..N) \X (1..N) : p[1] < p[2]}
                                    E(m) == (1048576 * (1 - Pow(m, 3))) \div Pow(m, 6)        \* r^-12 - r^-6, r^2 = m, in 1/1048576
                                    RECURSIVE G(_)
                                    G(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN E(n(p[1], p[2]) \div 4) + G(S \ {p})
                                IN IF Whole(x) /\ \A p \in P : n(p[1], p[2]) \div 4 \in 1..12 THEN Ok(G(P), 262144) ELSE No
       [] OTHER -> No
(* ------------------------------------------------- wrapped functions *)
RowMat(x, M) == [j \in DOMAIN x |-> Sum([i \in DOMAIN x |-> x[i] * M[i][j]])]
SubV(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
AddV(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
Excess(x, dist) == Sum([k \in DOMAIN x |-> LET e == Abs(x[k]) - dist IN IF e > 0 THEN Sq(e) ELSE 0])        \* quarters
(* the penalty of the wrapper w of a function that is (not) penalised already *)
Scaled(p, fac) == <<TRUE, Rat(p * fac, 4)>>
RECURSIVE Point(_, _)
Point(ws, x) == IF ws = <<>> THEN x
                ELSE LET w == Head(ws) IN Point(Tail(ws), CASE w.w = "translate" -> SubV(x, w.o) [] w.w = "rotate" -> RowMat(x, w.m) [] OTHER -> x)
RECURSIVE Value(_, _, _, _)
Value(ws, x, base, sg) ==     \* base(point): the value of the base function there
  IF ws = <<>> THEN base
  ELSE LET w == Head(ws)
           v(y) == Value(Tail(ws), y, base, sg)
       IN CASE w.w = "translate" -> v(SubV(x, w.o))
            [] w.w = "rotate" -> v(RowMat(x, w.m))
            [] w.w = "opposite" -> Neg(v(x))
            [] w.w = "soft" -> IF w.already THEN v(x) ELSE Add(v(x), Rat(w.fac * Excess(x, w.dist), 4))
Wraps == {"translate", "rotate", "soft", "opposite"}
IsMO(f) == f.base \in {"Sch", "Deb", "ConstDeb", "ConstSrn", "ConstOsy", "ConstBnh", "ConstTnk", "Pol", "PolBenchmark"}
Expect(s, f, x) == LET y == Point(f.ws, x)
                       e == F(f.base, y, f.sg)
                   IN IF e[1] THEN <<TRUE, Value(f.ws, x, e[2], f.sg)>>
                      ELSE IF <<f.inst, y>> \in DOMAIN s.memo THEN <<TRUE, Value(f.ws, x, s.memo[<<f.inst, y>>], f.sg)>> ELSE No
Odd(f) == Cardinality({k \in DOMAIN f.ws : f.ws[k].w = "opposite"}) % 2 = 1
Bounded(f) == f.base \notin Unb /\ f.base # "LennardJones"
Soft(f) == \E k \in DOMAIN f.ws : f.ws[k].w = "soft"
(* ------------------------------------------------------ multi-objective *)
MODim(b) == CASE b = "Sch" -> 1 [] b = "ConstOsy" -> 6 [] OTHER -> 2
Constrained(b) == b \in {"ConstDeb", "ConstSrn", "ConstOsy", "ConstBnh", "ConstTnk"}
(* constraints as <<numerator, denominator>>, feasible when all are >= 0 *)
G(b, x) == CASE b = "ConstDeb" -> <<<<x[2] + 9 * x[1] - 12, 2>>, <<9 * x[1] - x[2] - 2, 2>>>>
             [] b = "ConstSrn" -> <<<<900 - Sq(x[2]) - Sq(x[1]), 4>>, <<3 * x[2] - x[1] - 20, 2>>>>
             [] b = "ConstBnh" -> <<<<100 - Sq(x[1] - 10) - Sq(x[2]), 4>>, <<10 * Sq(x[1] - 16) + 10 * Sq(x[2] + 6) - 308, 40>>>>
             [] b = "ConstOsy" -> <<<<x[1] + x[2] - 4, 2>>, <<12 - x[1] - x[2], 2>>, <<4 - x[2] + x[1], 2>>, <<2 - x[1] + 3 * x[2], 2>>,
                                    <<16 - Sq(x[3] - 6) - 2 * x[4], 4>>, <<Sq(x[5] - 6) + 2 * x[6] - 16, 4>>>>
             [] b = "ConstTnk" -> LET c == IF x[2] = 0 \/ x[1] = 0 \/ Abs(x[1]) = Abs(x[2]) THEN 1 ELSE 0     \* cos(16 A) at these angles
                                  IN <<<<10 * Dot(x) - 40 - 4 * c, 40>>, <<2 - Sq(x[1] - 1) - Sq(x[2] - 1), 4>>>>
Feas(b, x) == \A k \in DOMAIN G(b, x) : G(b, x)[k][1] >= 0
(* the objectives, before the sign of the function is applied; <<>> where no exact formula is used *)
Obj(b, x) == CASE b = "Sch" -> <<Rat(Sq(x[1]), 4), Rat(Sq(x[1] - 4), 4)>>
               [] b \in {"Deb", "ConstDeb"} -> IF x[1] = 0 THEN <<>> ELSE <<Rat(x[1], 2), IF x[1] > 0 THEN Rat(2 + x[2], x[1]) ELSE Rat(-2 - x[2], -x[1])>>
               [] b = "ConstSrn" -> <<Rat(8 + Sq(x[1] - 4) + Sq(x[2] - 2), 4), Rat(18 * x[1] - Sq(x[2] - 2), 4)>>
               [] b = "ConstOsy" -> <<Rat(-(25 * Sq(x[1] - 4) + Sq(x[2] - 4) + Sq(x[3] - 2) + Sq(x[4] - 8) + Sq(x[5] - 2)), 4), Rat(Dot(x), 4)>>
               [] b = "ConstTnk" -> <<Rat(x[1], 2), Rat(x[2], 2)>>
               [] b = "ConstBnh" -> <<Rat(4 * Dot(x), 4), Rat(Sq(x[1] - 10) + Sq(x[2] - 10), 4)>>
               [] b \in {"Pol", "PolBenchmark"} -> IF x = <<2, 4>> THEN <<Rat(1, 1), Rat(25, 1)>> ELSE <<>>
               [] OTHER -> <<>>
(* evaluating an opposite evaluates what it is the opposite of *)
RECURSIVE Chain(_, _)
Chain(s, k) == IF k = 0 THEN {} ELSE {k} \cup Chain(s, s.fs[k].par)
(* ------------------------------------------------------------ operations *)
XInit0(c) == [c |-> c, fs |-> <<>>, pend |-> <<>>, memo |-> <<>>, fv |-> <<>>, k |-> 0]
New(s, b) == [base |-> b.base, dim |-> IF b.dim = NONE THEN DefDim(b.base) ELSE b.dim, ws |-> <<>>, sg |-> b.sg, inst |-> Len(s.fs) + 1,
              min |-> TRUE, neg |-> FALSE, pen |-> Penal(b.base), xo |-> <<>>]
FullNew(s, b) == LET f == New(s, b) IN [f EXCEPT !.xo = XOpt(b.base, f.dim, b.sg)]
Wrap(f, b) == LET w == CASE b.op = "translate" -> [w |-> "translate", o |-> b.o]
                         [] b.op = "rotate" -> [w |-> "rotate", m |-> b.m]
                         [] b.op = "soft" -> [w |-> "soft", dist |-> b.dist, fac |-> IF f.min THEN b.fac ELSE -b.fac, already |-> f.pen]
                         [] b.op = "opposite" -> [w |-> "opposite"]
              IN [f EXCEPT !.ws = <<w>> \o @, !.min = IF b.op = "opposite" THEN ~@ ELSE @, !.neg = IF b.op = "opposite" THEN ~@ ELSE @,
                           !.pen = b.op = "soft",
                           !.xo = CASE b.op = "translate" -> AddV(@, b.o) [] b.op = "rotate" -> RowMat(@, b.mi) [] OTHER -> @]
(* the declared optimum has the value zero (up to the penalties of soft constraints) *)
OptValue(f) == LET e == F(f.base, Point(f.ws, f.xo), f.sg) IN e
NewMO(s, b) == [base |-> b.base, dim |-> MODim(b.base), ws |-> <<>>, sg |-> <<>>, inst |-> Len(s.fs) + 1, min |-> TRUE, neg |-> FALSE, pen |-> FALSE, xo |-> <<>>, par |-> 0]
(* what every live function reports about itself: min, sign of desired value, penalised, dims, optimum *)
MetaBad(s, b) ==
  If(Len(b.fs) = Len(s.fs), "functions") \cup
  (IF Len(b.fs) # Len(s.fs) THEN {} ELSE UNION {LET f == s.fs[k] m == b.fs[k] IN
     If(m.dim = f.dim /\ m.indim = f.dim, "dimension") \cup
     (IF IsMO(f) THEN If(m.outdim = 2, "output dimension") \cup If(m.cons = Constrained(f.base), "constrained")
                      \cup If(m.feas = "ok" \/ Constrained(f.base), "feasibility of an unconstrained function")
                      \cup (IF s.fv[k] = <<>> THEN {} ELSE If(m.feas = (IF s.fv[k][1] THEN "ok" ELSE "infeasible"), "feasibility") \cup
                                If(Len(m.viol) = Len(s.fv[k][2]) /\ \A q \in DOMAIN m.viol : Near(m.viol[q], s.fv[k][2][q], 4), "violation"))
      ELSE If(m.outdim = 0, "output dimension") \cup
           If(m.min = f.min, "direction") \cup If(m.dv = <<IF f.neg THEN -1 ELSE 1, Desired(f.base)>> \/ f.base = "LennardJones", "desired value") \cup
           If(m.pen = f.pen, "penalised") \cup
           If(f.base \in Moving \cup Unb \cup {"BBOB", "LennardJones"} \/ m.xo = f.xo, "declared optimum")) : k \in DOMAIN s.fs})
Res(s, bad) == [s |-> [s EXCEPT !.k = @ + 1], bad |-> bad]
Push(s, f) == [s EXCEPT !.fs = Append(@, f), !.pend = Append(@, <<>>), !.fv = Append(@, <<>>)]
(* the value v of f at x: exact, as before, or new *)
ValBad(s, f, x, v) == LET e == Expect(s, f, x) IN
  IF e[1] THEN If(Near(v, e[2], 4), "value") ELSE IF Bounded(f) /\ ~Soft(f) THEN If(NonNeg(IF Odd(f) THEN Neg(v) ELSE v), "below the optimum") ELSE {}
Learn(s, f, x, v) == IF f.ws = <<>> /\ ~F(f.base, x, f.sg)[1] /\ <<f.inst, x>> \notin DOMAIN s.memo THEN [s EXCEPT !.memo = (<<f.inst, x>> :> v) @@ @] ELSE s
XDo(s0, b) ==
  LET s == [s0 EXCEPT !.k = @ + 1]
      f == s.fs[b.f]
      ok == b.err = ""
      noerr == If(ok, "raised " \o b.err)
      meta(t) == IF ok THEN MetaBad(t, b) ELSE {}
      out(t, bad) == [s |-> t, bad |-> bad \cup meta(t)]
  IN CASE b.op = "new" -> LET d == IF b.dim = NONE THEN DefDim(b.base) ELSE b.dim
                              fits == d >= MinDim(b.base) /\ d <= MaxDim(b.base)
                          IN IF ~fits THEN [s |-> s, bad |-> If(b.err = "AssertionError", "unsuitable dimension accepted")]
                             ELSE LET t == Push(s, FullNew(s, b)) IN out(t, noerr)
       [] b.op \in Wraps -> LET t == Push(s, Wrap(f, b)) IN out(t, noerr)
       [] b.op = "eval" -> IF b.how = "list" THEN [s |-> s, bad |-> If(b.err = "AssertionError", "accepted a list")]
                           ELSE out(Learn(s, f, b.x, b.v), noerr \cup (IF ok THEN ValBad(s, f, b.x, b.v) \cup If(b.same, "argument changed") ELSE {}))
       [] b.op = "act" -> out([Learn(s, f, b.x, b.v) EXCEPT !.pend[b.f] = <<b.x>>], noerr \cup (IF ok THEN If(b.same, "argument changed") ELSE {}))
       [] b.op = "reset" -> out([s EXCEPT !.pend[b.f] = <<>>], noerr)
       [] b.op = "sense" -> IF s.pend[b.f] = <<>> THEN [s |-> s, bad |-> If(b.err = "AssertionError", "observation without an action")]
                            ELSE LET x == s.pend[b.f][1] IN out([Learn(s, f, x, b.v) EXCEPT !.pend[b.f] = <<>>], noerr \cup (IF ok THEN ValBad(s, f, x, b.v) ELSE {}))
       [] b.op = "opt" -> out(s, noerr \cup (IF ok THEN If(Near(b.v, IF Soft(f) THEN Value(f.ws, f.xo, Zero, f.sg) ELSE Zero, 4), "value of the declared optimum") ELSE {}))
       [] b.op = "rel" -> out(s, noerr \cup (IF ok THEN If(Near(b.v, Rat(Dot(b.d), 4), 4), "distance to the optimum") ELSE {}))   \* rotated and translated spheres
       [] b.op = "shift" -> out(s, noerr \cup (IF ok THEN If(Abs(b.n - b.want) <= 1, "distance of the translation") ELSE {}))
       [] b.op = "bbob" -> LET bad == noerr \cup (IF ok THEN If(\A k \in DOMAIN b.opt : Near(b.opt[k], Zero, 2), "value of the declared optimum") \cup If(\A k \in DOMAIN b.vs : NonNeg(b.vs[k]), "below the optimum")
                                       \cup If(b.noisy \/ b.vs = b.vs2, "not repeatable") \cup If(b.same, "argument changed") \cup If(b.dv = "1e-08" /\ b.min, "declaration") \cup If(b.dims = b.dim, "dimension")
                                       \cup If(b.inside, "optimum outside the domain")
                                       \cup If(\A k \in DOMAIN b.pen : b.vs[k][1] + 1 >= b.pen[k], "penalty") ELSE {}) IN [s |-> s, bad |-> bad]
       [] b.op = "mo" -> LET t == Push(s, NewMO(s, b)) IN out(t, noerr)
       [] b.op = "moopp" -> LET t == Push(s, [f EXCEPT !.neg = ~@, !.par = b.f]) IN out(t, noerr)
       [] b.op = "moeval" -> LET want == Obj(f.base, b.x)
                                 fea == Feas(f.base, b.x)
                                 rep == IF ~Constrained(f.base) THEN <<>>
                                        ELSE <<fea, IF fea THEN <<Zero, Zero>> ELSE [k \in DOMAIN G(f.base, b.x) |-> Rat(G(f.base, b.x)[k][1], G(f.base, b.x)[k][2])]>>
                             IN out([s EXCEPT !.fv = [k \in DOMAIN @ |-> IF k \in Chain(s, b.f) /\ rep # <<>> THEN rep ELSE @[k]]],
                                    noerr \cup (IF ok THEN If(want = <<>> \/ (Len(b.v) = 2 /\ \A k \in 1..2 : Near(b.v[k], IF f.neg THEN want[k] ELSE Neg(want[k]), 4)), "objectives")
                                                            \cup If(b.same, "argument changed") ELSE {}))
       [] b.op = "moopt" -> [s |-> s, bad |-> noerr \cup (IF ok THEN If(b.agree, "recorded feasibility") \cup If(b.front, "infeasible solution among the best") \cup If(b.better, "recorded objectives") ELSE {})]
       [] b.op = "penalize" -> [s |-> s, bad |-> noerr \cup (IF ok THEN If(Near(b.v, Rat(Excess(b.x, b.dist), 4), 2) /\ b.same, "penalty") ELSE {})]
       [] b.op = "diags" -> LET want == [k \in 1..b.dim |-> Pow(b.root, k - 1)]       \* alpha = root^(2 dim - 2)
                            IN [s |-> s, bad |-> noerr \cup (IF ok THEN If(b.off, "not diagonal") \cup If(Len(b.v) = b.dim, "size")
                                   \cup If(IF b.shuffled THEN \A j \in 1..b.dim : \E k \in DOMAIN b.v : Near(b.v[k], <<want[j], 0>>, 4) ELSE \A k \in 1..b.dim : Near(b.v[k], <<want[k], 0>>, 4), "entries") ELSE {})]
       [] b.op = "warp" -> [s |-> s, bad |-> noerr \cup (IF ok THEN
              If(b.same, "argument changed") \cup
              If(\A k \in DOMAIN b.x : IF b.x[k] <= 0 \/ k = 1 THEN Near(b.asym[k], Rat(b.x[k], 2), 2)
                                       ELSE IF b.x[k] = 2 THEN Near(b.asym[k], <<1, 0>>, 2) ELSE IF b.x[k] = 1 THEN b.asym[k][1] = 0 /\ b.asym[k][2] <= 2049 ELSE b.asym[k][1] * 2 + 1 >= b.x[k], "asymmetry") \cup
              If(\A k \in DOMAIN b.x : IF b.x[k] = 0 THEN Near(b.osc[k], Zero, 2)
                                       ELSE LET v == IF b.x[k] < 0 THEN Neg(b.osc[k]) ELSE b.osc[k] IN LET n == v[1] * 4096 + v[2] m == 2048 * Abs(b.x[k]) IN 10 * n <= 11 * m + 10 /\ 10 * n >= 9 * m - 10, "oscillation") ELSE {})]
(* ------------------------------------------------------- exploration *)
MCDims(b) == {MinDim(b), MinDim(b) + 1, MinDim(b) - 1}
Pts(d, g) == [1..d -> g]
XOps(s) ==
  IF s.k >= s.c.depth THEN {} ELSE
  (IF Len(s.fs) >= s.c.max THEN {} ELSE
     {[op |-> "new", base |-> n, dim |-> d, sg |-> sg, f |-> 1, err |-> ""] : n \in s.c.bases, d \in s.c.dims, sg \in {<<1, -1>>}} \cup
     UNION {{[op |-> "translate", f |-> k, o |-> o, err |-> ""] : o \in Pts(s.fs[k].dim, s.c.offs)} \cup
            {[op |-> "rotate", f |-> k, m |-> r[1], mi |-> r[2], err |-> ""] : r \in s.c.rots[s.fs[k].dim]} \cup
            {[op |-> "soft", f |-> k, dist |-> ds, fac |-> 3, err |-> ""] : ds \in {2, 10}} \cup {[op |-> "opposite", f |-> k, err |-> ""]} : k \in DOMAIN s.fs}) \cup
  UNION {{[op |-> o, f |-> k, x |-> x, how |-> "array"] : o \in {"eval", "act"}, x \in Pts(s.fs[k].dim, s.c.pts)} \cup {[op |-> o, f |-> k] : o \in {"sense", "reset", "opt"}} : k \in DOMAIN s.fs}
XNext0(s0, op) ==
  LET s == [s0 EXCEPT !.k = @ + 1]
  IN CASE op.op = "new" -> IF op.dim < MinDim(op.base) \/ op.dim > MaxDim(op.base) \/ (op.base = "BoundedLinear" /\ op.dim # 2) THEN s ELSE Push(s, FullNew(s, op))
       [] op.op \in Wraps -> Push(s, Wrap(s.fs[op.f], op))
       [] op.op = "act" -> [s EXCEPT !.pend[op.f] = <<op.x>>]
       [] op.op \in {"sense", "reset"} -> [s EXCEPT !.pend[op.f] = <<>>]
       [] OTHER -> s
=============================================================================
