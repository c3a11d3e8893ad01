------------------------------- MODULE PGrad -------------------------------
(* Policy-gradient learning: a linear policy with Gaussian exploration (plain or state dependent), the record of
   log-likelihood gradients, the REINFORCE and ENAC gradients and the descent step; and reward-weighted regression.
   Parameters, actions and gradients are fixed point (Fixed: 4096 = 1); observations and rewards are integers.
   cfg: kind, alg, ni inputs, na actions, b (1 with bias), expl, alpha (learning rate 2^-alpha), mom (sixteenths)
   state: w  parameters, row major (action j, then inputs, then bias), followed by one exploration parameter per action
          vel the last change of the parameters (momentum), rows the recorded gradients, hist the episodes [n, ret],
          em the exploration matrix of the running episode, fresh: no exploration matrix seen yet in this episode *)
EXTENDS Fixed, FiniteSets
PCfg0 == [kind |-> "pg", alg |-> "reinforce", ni |-> 1, na |-> 1, b |-> 0, expl |-> "normal", alpha |-> 3, mom |-> 0, disc |-> 4096, minr |-> 0, bound |-> 0]
NW(c) == c.na * (c.ni + c.b)
NP(c) == NW(c) + c.na
PInit(c) == [c |-> c, w |-> [k \in 1..NP(c) |-> 0], vel |-> [k \in 1..NP(c) |-> 0], rows |-> <<>>, hist |-> <<>>, em |-> <<>>, fresh |-> TRUE, n |-> 0, tau |-> One, ep |-> 0, st |-> 0]
At(c, j, i) == (j - 1) * (c.ni + c.b) + i
Full(c, o) == IF c.b = 1 THEN Append(o, 1) ELSE o
Mean(s, o) == LET x == Full(s.c, o) IN [j \in 1..s.c.na |-> SumSeq([i \in 1..Len(x) |-> s.w[At(s.c, j, i)] * x[i]])]
Sq(o) == SumSeq([i \in DOMAIN o |-> o[i] * o[i]])
(* gradient of the log likelihood of action a in the situation o, times the variance of each action component *)
Row(s, o, a) ==
  LET c == s.c
      x == Full(c, o)
      mu == TLCEval(Mean(s, o))
      dev == TLCEval([j \in 1..c.na |-> a[j] - mu[j]])
      g(j) == LET t == s.w[NW(c) + j]
                  sg == Expln(t)
              IN IF c.expl = "normal" THEN Mul(Div(Mul(dev[j], dev[j]), sg) - sg, ExplnD(t))
                 ELSE IF Sq(o) = 0 THEN 0 ELSE Mul(Div(Mul(dev[j], dev[j]), sg) - sg * Sq(o), ExplnD(t))
  IN TLCEval([k \in 1..NP(c) |-> IF k > NW(c) THEN g(k - NW(c)) ELSE dev[((k - 1) \div (c.ni + c.b)) + 1] * x[((k - 1) % (c.ni + c.b)) + 1]])
Close(h) == IF h = <<>> \/ h[Len(h)].n = 0 THEN h ELSE Append(h, [n |-> 0, ret |-> 0])
Rec(h, r) == LET q == IF h = <<>> THEN <<[n |-> 0, ret |-> 0]>> ELSE h
             IN [q EXCEPT ![Len(q)] = [n |-> @.n + 1, ret |-> @.ret + r]]
RECURSIVE Before(_, _)
Before(h, e) == IF e <= 1 THEN 0 ELSE h[e - 1].n + Before(h, e - 1)
(* summed gradients of an episode *)
EpSum(s, e) == LET f == Before(s.hist, e)
               IN TLCEval([k \in 1..NP(s.c) |-> SumSeq([i \in 1..s.hist[e].n |-> s.rows[f + i][k]])])
MaxAbs(q) == MaxSeq([i \in DOMAIN q |-> Abs(q[i])])
Sgn(x) == IF x < 0 THEN -1 ELSE 1
(* the variance-minimising baseline of parameter k: sum S^2 R / sum S^2 *)
Baseline(S, R, k) ==
  LET m == MaxAbs([e \in DOMAIN S |-> S[e][k]])
      q == TLCEval([e \in DOMAIN S |-> DivP(Abs(S[e][k]), m) \div 4])
  IN IF m = 0 THEN 0 ELSE Div(SumSeq([e \in DOMAIN S |-> q[e] * q[e] * R[e]]), SumSeq([e \in DOMAIN S |-> q[e] * q[e]]))
Sums(s) == TLCEval([e \in DOMAIN s.hist |-> EpSum(s, e)])
Rets(s) == [e \in DOMAIN s.hist |-> s.hist[e].ret]
Grad(S, R, k) == LET b == Baseline(S, R, k)
                 IN SumSeq([e \in DOMAIN S |-> Mul(S[e][k], R[e] * One - b)]) \div Len(S)
Range(R) == LET m == MaxSeq(R) IN m + MaxSeq([e \in DOMAIN R |-> -R[e]])
GradTol(S, R, k) == ((SumSeq([e \in DOMAIN S |-> Abs(S[e][k])]) \div Len(S)) * (Range(R) + 1)) \div 150
P2(k) == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024>>[k + 1]
(* least-squares normal equations of the regression of returns on summed gradients with an intercept *)
Normal(S, R, b, alpha) ==
  LET N == Len(S)
      K == 1..Len(b)
      fit == TLCEval([e \in DOMAIN S |-> SumSeq([k \in K |-> Mul(S[e][k], b[k])])])
      er == TLCEval([e \in DOMAIN S |-> R[e] * One - fit[e]])
      mean == SumSeq(er) \div N
      tol == TLCEval([e \in DOMAIN S |-> 4 + SumSeq([k \in K |-> (Abs(S[e][k]) * (2 + P2(alpha))) \div 2048 + Abs(b[k]) \div 512])])
      mt == MaxSeq(tol)
  IN \A k \in K : Abs(SumSeq([e \in DOMAIN S |-> Mul(S[e][k], er[e] - mean)]) \div N)
                    <= 8 + 2 * Mul(MaxAbs([e \in DOMAIN S |-> S[e][k]]), mt)
If(b, x) == IF b THEN {} ELSE {x}
Tied(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN b : Abs(a[k] - b[k]) <= tol + Abs(b[k]) \div 256
(* ------------------------------------------------------------------ steps of the policy-gradient system *)
PgDo(s, t) ==
  LET c == s.c
      same == If(t.p = s.w \/ Len(t.p) = 0, "parameters change without learning")
      cnt(n) == If(t.nrows = n, "one recorded gradient per explored action")
  IN
  CASE t.op = "set" -> [s |-> [s EXCEPT !.w = t.p, !.vel = IF t.renew THEN [k \in 1..NP(c) |-> 0] ELSE @, !.rows = IF t.renew THEN <<>> ELSE @, !.c = [c EXCEPT !.expl = t.expl], !.fresh = TRUE],
                        bad |-> IF t.renew THEN cnt(0) ELSE cnt(Len(s.rows))]
    [] t.op = "act" ->
         LET mu == Mean(s, t.obs)
             row == TLCEval(Row(s, t.obs, t.a))
             explored == c.expl = "normal" \/ \A j \in 1..c.na :
                            Abs(t.a[j] - mu[j] - SumSeq([i \in 1..c.ni |-> t.em[i][j] * t.obs[i]])) <= 16
         IN IF t.learning
            THEN [s |-> [s EXCEPT !.rows = Append(@, t.row), !.hist = Rec(@, t.r), !.em = t.em, !.fresh = FALSE],
                  bad |-> same \cup cnt(Len(s.rows) + 1) \cup If(explored, "the action is the policy's plus exploration")
                          \cup If(s.fresh \/ c.expl = "normal" \/ t.em = s.em, "exploration is constant during an episode")
                          \cup If(Tied(t.row, row, 24), "recorded gradient of the log likelihood")]
            ELSE [s |-> s, bad |-> same \cup cnt(Len(s.rows)) \cup If(\A j \in 1..c.na : Abs(t.a[j] - mu[j]) <= 8, "without learning the policy acts unperturbed")]
    [] t.op = "episode" -> [s |-> [s EXCEPT !.hist = Close(@), !.fresh = TRUE], bad |-> same \cup cnt(Len(s.rows))
                             \cup If(c.expl = "normal" \/ s.em = <<>> \/ t.em # s.em, "a new episode explores anew")]
    [] t.op = "reset" -> [s |-> [s EXCEPT !.rows = <<>>, !.hist = <<>>], bad |-> same \cup cnt(0)]
    [] t.op = "nolearn" -> [s |-> s, bad |-> same \cup cnt(Len(s.rows))]
    [] t.op = "given" ->     \* a learner with a prescribed gradient: limited to 1000 in absolute value
         LET m == MaxAbs(t.g)
             g(k) == IF m > 1000 THEN Div(t.g[k] * 1000, m) ELSE t.g[k] * One
             mv(k) == (s.vel[k] * c.mom) \div 16
         IN [s |-> [s EXCEPT !.w = t.p, !.vel = [k \in 1..NP(c) |-> t.p[k] - s.w[k]]],
             bad |-> If(\A k \in 1..NP(c) : Abs(t.p[k] - s.w[k] - mv(k) - g(k) \div P2(c.alpha)) <= 8 + Abs(t.p[k]) \div 2048, "gradient step")]
    [] t.op = "learn" ->
         LET S == Sums(s)
             R == Rets(s)
             mv(k) == (s.vel[k] * c.mom) \div 16
             d == TLCEval([k \in 1..NP(c) |-> t.p[k] - s.w[k] - mv(k)])
             g(k) == Grad(S, R, k)
             ok == IF c.alg = "reinforce"
                   THEN \A k \in 1..NP(c) : Abs(d[k] - g(k) \div P2(c.alpha)) <= 8 + (Abs(g(k)) \div 128 + GradTol(S, R, k)) \div P2(c.alpha)
                   ELSE t.big \/ Normal(S, R, [k \in 1..NP(c) |-> d[k] * P2(c.alpha)], c.alpha)
         IN [s |-> [s EXCEPT !.w = t.p, !.vel = TLCEval([k \in 1..NP(c) |-> t.p[k] - s.w[k]])],
             bad |-> cnt(Len(s.rows)) \cup If(t.rows = s.rows, "recorded gradients stay as recorded") \cup If(ok, "gradient step")]
    [] t.op = "spread" ->    \* statistics of many standardised deviations, at 4096
         [s |-> s, bad |-> If(Abs(t.g[1]) <= t.tol, "exploration is centred on the policy's action") \cup If(Abs(t.g[2] - One) <= t.tol, "exploration has the stated deviation")]
(* ------------------------------------------------------------------ reward-weighted regression *)
RECURSIVE Ret(_, _, _)
Ret(c, rs, k) == IF k > Len(rs) THEN 0 ELSE rs[k] * One + Mul(Ret(c, rs, k + 1), c.disc)
RwrDo(s, t) ==
  LET c == s.c
      E == DOMAIN t.eps
      N == Len(t.eps)
      r0 == TLCEval([e \in E |-> Ret(c, t.eps[e].r, 1)])
      mx == MaxSeq(r0)
      u == TLCEval([e \in E |-> Exp(Mul(s.tau, r0[e] - mx))])
      den == SumSeq([e \in E |-> Mul(u[e], r0[e] - c.minr * One)])
      tau2 == Div(SumSeq(u), den)
      tot == SumSeq([e \in E |-> Len(t.eps[e].r)])
      avg(rs) == (SumSeq(rs) * One) \div Len(rs)
      near(a, b) == Abs(a - b) <= 12 + Abs(b) \div 256
      rowsOk == Len(t.raw) = N /\ \A e \in E : Len(t.raw[e]) = Len(t.eps[e].r) /\ \A k \in DOMAIN t.raw[e] :
                  t.raw[e][k].o = t.eps[e].o[k] /\ t.raw[e][k].a = t.eps[e].a[k] /\ near(t.raw[e][k].v, Ret(c, t.eps[e].r, k))
      wOk == Len(t.wts) = N /\ \A e \in E : Len(t.wts[e]) = Len(t.eps[e].r) /\ \A k \in DOMAIN t.wts[e] :
                  t.wts[e][k].o = t.eps[e].o[k] /\ t.wts[e][k].a = t.eps[e].a[k] /\ \A q \in DOMAIN t.wts[e][k].w : near(t.wts[e][k].w[q], u[e])
      greedyOk == \A e \in DOMAIN t.gr : \A k \in DOMAIN t.gr[e].p : \A q \in DOMAIN t.gr[e].p[k] : t.gr[e].p[k][q] <= t.gr[e].p[k][t.gr[e].a[k] + 1]
      (* a memory of the previous episode must not leak into the next: equal beginnings give equal probabilities *)
      freshOk == \A h \in {t.eps, t.gr} : \A e, f \in DOMAIN h : h[e].o[1] = h[f].o[1] => h[e].p[1] = h[f].p[1]
      drawnOk == \A e \in E : \A k \in DOMAIN t.eps[e].p : t.eps[e].p[k][t.eps[e].a[k] + 1] > 0
  IN [s |-> [s EXCEPT !.tau = t.tau, !.ep = @ + N, !.st = @ + tot],
      bad |-> If(rowsOk, "experience holds every step with its discounted return")
              \cup If(wOk, "every step is weighted by its episode's transformed return")
              \cup If(near(t.tau, tau2), "temperature follows the weighted returns")
              \cup If(near(t.ravg, SumSeq([e \in E |-> avg(t.eps[e].r)]) \div N) /\ near(t.lavg, (tot * One) \div N) /\ near(t.iavg, SumSeq(r0) \div N), "averages of the batch")
              \cup If(t.toteps = s.ep + N /\ t.totsteps = s.st + tot, "totals")
              \cup If(greedyOk, "greedy runs take the most probable action") \cup If(freshOk, "every episode starts without memory of the one before") \cup If(drawnOk, "explored actions have positive probability")
              \cup If(near(t.gavg, SumSeq([e \in DOMAIN t.gr |-> avg(t.gr[e].r)]) \div Len(t.gr)), "greedy average")]
PDo(s, t) == IF t.err # "" THEN [s |-> s, bad |-> {"unexpected " \o t.err}]
             ELSE IF s.c.kind = "rwr" THEN RwrDo(s, t) ELSE PgDo(s, t)
(* ------------------------------------------------------------------ model *)
POps(s) == IF s.n >= s.c.bound THEN {}
           ELSE {[op |-> "act", o |-> o, a |-> a, r |-> r] : o \in {-1, 2}, a \in {-4096, 2048, 8192}, r \in {-1, 2}}
                \cup (IF s.hist = <<>> THEN {} ELSE {[op |-> "episode", o |-> 0, a |-> 0, r |-> 0]})
                \cup (IF s.hist = <<>> \/ s.hist[Len(s.hist)].n = 0 THEN {} ELSE {[op |-> "learn", o |-> 0, a |-> 0, r |-> 0]})
                \cup {[op |-> "reset", o |-> 0, a |-> 0, r |-> 0]}
PNext0(s, op) ==
  LET c == s.c
      u == [s EXCEPT !.n = @ + 1]
  IN CASE op.op = "act" -> [u EXCEPT !.rows = Append(@, Row(s, <<op.o>>, <<op.a>>)), !.hist = Rec(@, op.r)]
       [] op.op = "episode" -> [u EXCEPT !.hist = Close(@)]
       [] op.op = "reset" -> [u EXCEPT !.rows = <<>>, !.hist = <<>>]
       [] op.op = "learn" -> LET S == Sums(s)
                                 R == Rets(s)
                                 v == TLCEval([k \in 1..NP(c) |-> (s.vel[k] * c.mom) \div 16 + Grad(S, R, k) \div P2(c.alpha)])
                             IN [u EXCEPT !.vel = v, !.w = [k \in 1..NP(c) |-> s.w[k] + v[k]]]
(* one gradient per recorded step, in the episodes' order *)
Aligned(s) == Len(s.rows) = Before(s.hist, Len(s.hist) + 1)
Filled(s) == s.hist # <<>> /\ s.hist[Len(s.hist)].n > 0
(* a constant added to every return does not change the gradient: the baseline takes it away *)
ShiftInv(s) == Filled(s) => LET S == Sums(s)
                                R == Rets(s)
                                Q == [e \in DOMAIN R |-> R[e] + 3]
                            IN \A k \in 1..NP(s.c) : Abs(Grad(S, R, k) - Grad(S, Q, k)) <= 4 + GradTol(S, Q, k)
(* with two episodes, the gradient points along the better one as long as their directions oppose *)
Ascent(s) == Filled(s) /\ Len(s.hist) = 2 =>
             LET S == Sums(s)
                 R == Rets(s)
             IN \A k \in 1..NP(s.c) : (S[1][k] < 0 /\ S[2][k] > 0 /\ R[2] > R[1]) => Grad(S, R, k) >= -GradTol(S, R, k)
(* a parameter that no action depended on never moves *)
Inert(s) == Filled(s) => LET S == Sums(s) IN \A k \in 1..NP(s.c) : (\A e \in DOMAIN S : S[e][k] = 0) => Grad(S, Rets(s), k) = 0
=============================================================================
