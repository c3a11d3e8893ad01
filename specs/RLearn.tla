------------------------------- MODULE RLearn -------------------------------
(* Value-based reinforcement learning: tabular Q, SARSA and Q(lambda) and their linear-feature variants.
   Table values are fixed point with 16 fractional bits (U = 65536); cfg.alpha, gamma, lam in sixteenths; rewards at U.
   state: t table (row major), h history (episodes of [s, a, r]); th weights and tr traces of the linear variants *)
EXTENDS Fixed, FiniteSets
U == 65536
Sc(v, f) == (v * f) \div 16
At(c, s, a) == s * c.na + a + 1
Row(c, t, s) == {t[At(c, s, a)] : a \in 0..(c.na - 1)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RInit(c) == [c |-> c, t |-> c.t0, h |-> <<>>, n |-> 0, prev |-> <<>>, th |-> c.t0, tr |-> [k \in DOMAIN c.t0 |-> 0], w |-> [k \in DOMAIN c.t0 |-> 0],
             A |-> [k \in DOMAIN c.t0 |-> [i \in DOMAIN c.t0 |-> 0]], b |-> [k \in DOMAIN c.t0 |-> 0], ep |-> 1, lr |-> c.lr]
(* one transition x = [s, a, r] -> y; w is the weight of the update (65536 = 1) *)
Target(c, t, x, y) == x.r + Sc(IF c.alg = "sarsa" THEN t[At(c, y.s, y.a)] ELSE MaxOf(Row(c, t, y.s)), c.gamma)
MulW(v, w) == (((v \div 256) * w) \div 256) + (((v % 256) * w) \div 65536)
Upd(c, t, x, y, w) == LET k == At(c, x.s, x.a) IN TLCEval([t EXCEPT ![k] = @ + MulW(Sc(Target(c, t, x, y) - @, c.alpha), w)])
Upd1(c, t, x, y) == LET k == At(c, x.s, x.a) IN TLCEval([t EXCEPT ![k] = @ + Sc(Target(c, t, x, y) - @, c.alpha)])
RECURSIVE Along(_, _, _, _)
Along(c, t, ep, k) == IF k >= Len(ep) THEN t ELSE Along(c, Upd1(c, t, ep[k], ep[k + 1]), ep, k + 1)
RECURSIVE Batch(_, _, _, _)
Batch(c, t, h, k) == IF k > Len(h) THEN t ELSE Batch(c, Along(c, t, h[k], 1), h, k + 1)
(* Q(lambda): the transitions of the running episode, latest first, each with the weight lambda^age (in 65536ths) *)
RECURSIVE Back(_, _, _, _, _)
Back(c, t, ep, k, w) == IF k < 1 \/ w < 7 THEN t
                        ELSE Back(c, Upd(c, t, ep[k], ep[k + 1], w), ep, k - 1, Sc(w, c.lam))
Pass(c, t, h) == IF c.alg # "ql" THEN Batch(c, t, h, 1)
                 ELSE IF h = <<>> THEN t ELSE Back(c, t, h[Len(h)], Len(h[Len(h)]) - 1, 65536)
RECURSIVE Passes(_, _, _, _)
Passes(c, t, h, n) == IF n = 0 THEN t ELSE Passes(c, TLCEval(Pass(c, t, h)), h, n - 1)
Learnt(s, n) == Passes(s.c, s.t, s.h, n)
NearT(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Abs(a[k] - b[k]) <= tol
(* entries that no transition leaves from must not change at all *)
Untouched(s) == {k \in DOMAIN s.t : ~\E e \in DOMAIN s.h : \E i \in 1..(Len(s.h[e]) - 1) : At(s.c, s.h[e][i].s, s.h[e][i].a) = k}
Put(h, x) == IF h = <<>> THEN <<<<x>>>> ELSE [h EXCEPT ![Len(h)] = Append(@, x)]
Open(h) == IF h = <<>> \/ h = <<<<>>>> \/ h[Len(h)] = <<>> THEN h ELSE Append(h, <<>>)
If(b, x) == IF b THEN {} ELSE {x}
(* ----------------------------------------------- linear function approximation
   th, tr: action-major weights, nf features; x.f features (small integers), all at U *)
Pos(c, a, f) == a * c.nf + f
(* a * b / 65536 *)
MulU(a, b) == LET ah == a \div 256
                  al == a % 256
                  bh == b \div 256
                  bl == b % 256
              IN ah * bh + (ah * bl + al * bh) \div 256
Dot(c, th, a, f) == SumSeq([k \in 1..c.nf |-> th[Pos(c, a, k)] * f[k]])
MaxDot(c, th, f) == MaxOf({Dot(c, th, a, f) : a \in 0..(c.na - 1)})
(* features of the pair (action with weights p in sixteenths, state features f), at U *)
Phi(c, p, f) == [k \in 1..(c.na * c.nf) |-> (U \div 16) * p[((k - 1) \div c.nf) + 1] * f[((k - 1) % c.nf) + 1]]
Only(c, a) == [k \in 1..c.na |-> IF k = a + 1 THEN 16 ELSE 0]
UsesTraces(c) == c.alg \in {"linql", "linsarsa", "lstdq", "gq"}
ElTraces(c, tr, x) ==
  LET rho == IF c.alg = "gq" THEN x.p[x.a + 1] * c.na ELSE 16
      p == Phi(c, Only(c, x.a), x.f)
  IN TLCEval([k \in DOMAIN tr |-> p[k] + (IF UsesTraces(c) THEN Sc(Sc(Sc(tr[k], c.gamma), c.lam), rho) ELSE 0)])
(* expected features of the next state, under the policy the variant evaluates *)
Next(c, th, x) ==
  IF c.alg \in {"linsarsa", "lspi"} THEN Phi(c, Only(c, x.a2), x.f2)
  ELSE IF c.alg \in {"gq", "lstdq"} THEN Phi(c, x.p, x.f2)
  ELSE Phi(c, Only(c, CHOOSE a \in 0..(c.na - 1) : Dot(c, th, a, x.f2) = MaxDot(c, th, x.f2)), x.f2)
VDot(u, v) == SumSeq([k \in DOMAIN u |-> MulU(u[k], v[k])])
TdErr(c, th, x) == x.r + Sc(VDot(th, Next(c, th, x)), c.gamma) - Dot(c, th, x.a, x.f)
LinUpd(c, th, w, tr, x) ==
  LET td == TdErr(c, th, x)
      nx == Next(c, th, x)
      corr == IF c.alg = "gq" THEN Sc(Sc(VDot(w, tr), c.gamma), 16 - c.lam) ELSE 0
  IN TLCEval([k \in DOMAIN th |-> th[k] + MulU(x.lr, MulU(td, tr[k]) - MulU(corr, nx[k]))])
SecUpd(c, th, w, tr, x) ==
  LET td == TdErr(c, th, x)
      ph == Phi(c, Only(c, x.a), x.f)
      d == VDot(w, ph)
  IN TLCEval([k \in DOMAIN w |-> w[k] + MulU(Sc(x.lr, c.alpha), MulU(td, tr[k]) - MulU(d, ph[k]))])
(* least squares variants: A theta = b in the least squares sense *)
LsA(c, s, tr, x) == LET d == [k \in DOMAIN tr |-> Phi(c, Only(c, x.a), x.f)[k] - Sc(Next(c, s.th, x)[k], c.gamma)]
                    IN TLCEval([i \in DOMAIN s.A |-> [k \in DOMAIN s.A |-> s.A[i][k] + MulU(tr[i], d[k])]])
LsB(s, tr, x) == TLCEval([i \in DOMAIN s.b |-> s.b[i] + MulU(x.r, tr[i])])
Normal(A, b, th) == LET r == TLCEval([i \in DOMAIN b |-> VDot(A[i], th) - b[i]])
                    IN \A k \in DOMAIN b : Abs(SumSeq([i \in DOMAIN b |-> MulU(A[i][k], r[i])])) <= U \div 4
Near2(u, v, old, tol) == \A k \in DOMAIN u : Abs(u[k] - v[k]) <= tol + (Abs(v[k] - old[k]) \div 256)
(* ------------------------------------------------------------------ steps *)
RDo(s, b) ==
  LET c == s.c IN
  IF b.err # "" THEN [s |-> s, bad |-> {"raised " \o b.err}] ELSE
  CASE b.op = "step" ->  \* observation, action, reward of one interaction
         LET q == s.t
             best == {a \in 0..(c.na - 1) : q[At(c, b.s, a)] >= MaxOf(Row(c, q, b.s)) - 2}
         IN [s |-> [s EXCEPT !.h = Put(@, [s |-> b.s, a |-> b.a, r |-> b.r])],
             bad |-> If(b.a \in 0..(c.na - 1), "legal action") \cup If(~b.greedy \/ b.a \in best, "greedy action") \cup If(NearT(b.t, s.t, 0), "acting changes the values")]
    [] b.op = "episode" -> [s |-> [s EXCEPT !.h = Open(@), !.prev = <<>>], bad |-> If(NearT(b.t, s.t, 0), "acting changes the values")]
    [] b.op = "reset" -> [s |-> [s EXCEPT !.h = <<>>, !.prev = <<>>], bad |-> If(NearT(b.t, s.t, 0), "acting changes the values")]
    [] b.op = "learn" ->
         LET w == Learnt(s, b.n) IN
         [s |-> [s EXCEPT !.t = b.t],
          bad |-> If(NearT(b.t, w, 96), "values after learning") \cup If(\A k \in Untouched(s) : b.t[k] = s.t[k], "only visited entries change")]
    [] b.op = "online" ->  \* one learning step from the last sample of a one-sample-at-a-time learner
         LET y == s.h[Len(s.h)][Len(s.h[Len(s.h)])]
             w == IF s.prev = <<>> THEN s.t ELSE Upd1(c, s.t, s.prev[1], y)
         IN [s |-> [s EXCEPT !.t = b.t, !.prev = <<y>>], bad |-> If(NearT(b.t, w, 96), "values after learning online")]
    [] b.op = "values" ->   \* action values and greedy action of a state
         [s |-> s, bad |-> If(b.v = [a \in 1..c.na |-> s.t[At(c, b.s, a - 1)]], "action values")
                           \cup If(b.a \in 0..(c.na - 1) /\ s.t[At(c, b.s, b.a)] = MaxOf(Row(c, s.t, b.s)), "greedy action")]
    [] b.op = "explore" ->  \* explorer with a given setting
         [s |-> s, bad |-> If(b.a \in 0..(c.na - 1), "legal action") \cup If(~b.off \/ b.a = b.given, "exploration is off")
                           \cup If(~b.greedy \/ s.t[At(c, b.s, b.a)] = MaxOf(Row(c, s.t, b.s)), "greedy at zero temperature")
                           \cup If(Abs(b.eps2 - ((b.eps * b.decay) \div 16)) <= 2, "decay of the exploration")]
    [] b.op = "linnew" -> \* the learning rate decays with every new episode
         LET k == s.ep + 1 IN
         [s |-> [s EXCEPT !.tr = [z \in DOMAIN s.tr |-> 0], !.ep = k, !.lr = b.lr],
          bad |-> If(NearT(b.t, s.th, 0), "weights") \cup If(Abs(b.lr - ((s.lr \div (101 + k)) * (100 + k) + ((s.lr % (101 + k)) * (100 + k)) \div (101 + k))) <= 2, "learning rate")]
    [] b.op = "lin" ->
         LET tr == ElTraces(c, s.tr, b)
             ls == c.alg \in {"lspi", "lstdq"}
             A == IF ls THEN LsA(c, s, tr, b) ELSE s.A
             v == IF ls THEN LsB(s, tr, b) ELSE s.b
             w == LinUpd(c, s.th, s.w, tr, b)
             w2 == IF c.alg = "gq" THEN SecUpd(c, s.th, s.w, tr, b) ELSE s.w
         IN [s |-> [s EXCEPT !.th = b.t, !.tr = IF UsesTraces(c) THEN tr ELSE @, !.A = A, !.b = v, !.w = IF c.alg = "gq" THEN b.w ELSE @],
             bad |-> IF ls THEN If(Normal(A, v, b.t), "weights solve the projected fixed point")
                     ELSE If(Near2(b.t, w, s.th, 256), "weights after learning")
                     \cup If(c.alg = "gq" \/ \A k \in DOMAIN w : tr[k] # 0 \/ b.t[k] = s.th[k], "only traced entries change")
                     \cup If(c.alg # "gq" \/ Near2(b.w, w2, s.w, 256), "second weights after learning")
                     \cup If(b.lr = s.lr, "learning rate")]
    [] b.op = "linq" -> [s |-> s, bad |-> If(b.v = <<>> \/ \A a \in 1..c.na : Abs(b.v[a] - Dot(c, s.th, a - 1, b.f)) <= 8, "action values")
                                   \cup If(Dot(c, s.th, b.a, b.f) >= MaxDot(c, s.th, b.f) - 8, "greedy action")]
    [] b.op = "nfq" ->  \* training set built by neuro-fitted Q-learning; b.q[e][k]: action values of the state before learning
         LET all == LET RECURSIVE F(_)
                        F(e) == IF e > Len(b.q) THEN <<>> ELSE [k \in 1..(IF Len(b.q[e]) = 0 THEN 0 ELSE Len(b.q[e]) - 1) |-> <<e, k>>] \o F(e + 1) IN F(1)
             tgt(e, k) == LET q0 == b.q[e][k][b.a[e][k] + 1]
                              m == MaxOf({b.q[e][k + 1][z] : z \in 1..c.na})
                          IN q0 + ((b.r[e][k] + (m * 9) \div 10 - q0) \div 2)
         IN [s |-> s, bad |-> If(Len(b.inp) = Len(all), "one training sample per transition")
              \cup (IF Len(b.inp) # Len(all) THEN {} ELSE
                    If(\A z \in DOMAIN all : b.inp[z] = b.x[all[z][1]][all[z][2]] \o [a \in 1..c.na |-> IF a = b.a[all[z][1]][all[z][2]] + 1 THEN 4096 ELSE 0], "inputs of the training samples")
                    \cup If(\A z \in DOMAIN all : Abs(b.tgt[z] - tgt(all[z][1], all[z][2])) <= 6, "targets of the training samples"))]
(* ------------------------------------------------------------ exploration *)
RCount(s) == SumSeq([k \in DOMAIN s.h |-> Len(s.h[k])])
ROps(s) == IF s.n >= s.c.bound THEN {} ELSE
             {[op |-> "step", s |-> x, a |-> a, r |-> r] : x \in 0..1, a \in 0..1, r \in {0, U}} \cup {[op |-> "episode", s |-> 0, a |-> 0, r |-> 0], [op |-> "learn", s |-> 0, a |-> 0, r |-> 0]}
RNext0(s, op) ==
  LET u == CASE op.op = "step" -> [s EXCEPT !.h = Put(@, [s |-> op.s, a |-> op.a, r |-> op.r])]
             [] op.op = "episode" -> [s EXCEPT !.h = Open(@)]
             [] op.op = "learn" -> [s EXCEPT !.t = Learnt(s, 1)]
  IN [u EXCEPT !.n = @ + 1]
(* with rewards in [0, 1] and gamma < 1 the values stay in [0, 1 / (1 - gamma)]; without positive rewards they never grow *)
RangeInv(s) == \A k \in DOMAIN s.t : -64 <= s.t[k] /\ s.t[k] * (16 - s.c.gamma) <= 16 * U + 4096
=============================================================================
