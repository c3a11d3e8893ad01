------------------------------- MODULE Train -------------------------------
(* Training: the gradient-descent helper and the back-propagation trainers.
   cfg.tr: "gd" helper (alpha, momentum, alphadecay) | "gdr" helper in RProp mode | "nat" natural gradient helper
           "bp" BackpropTrainer (online or batch) | "rprop" RPropMinusTrainer
   The trained network: in -> [hidden (lin or tanh), optionally recurrent] -> linear out, optional biases;
   cfg.lay gives the positions of the weight groups i, o, r, bi, bo in the parameter vector.
   cfg.data: sequences of samples [x, t, w] (w importance, <<>> if none).
   Values are fixed point (4096 = 1); learning rates, step sizes and factors are kept at 2^20 / sixteenths.
   state: p parameters, mv last update, al learning rate, th step sizes, lg remembered gradient signs, n epochs, smp samples *)
EXTENDS Fixed, FiniteSets
M20 == 1048576
Zero(n) == [k \in 1..n |-> 0]
Vadd(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
TInit0(c) == [c |-> c, p |-> c.p0, mv |-> Zero(Len(c.p0)), al |-> c.alpha, th |-> [k \in 1..Len(c.p0) |-> c.delta0],
              lg |-> Zero(Len(c.p0)), n |-> 0, smp |-> <<>>]
(* -------------------------------------------------------- the two rules *)
Scale16(v, f) == (v * f) \div 16                              \* v * f/16
(* plain: delta = alpha * g + momentum * previous delta; alpha decays after every update *)
PlainDelta(s, g) == TLCEval([k \in DOMAIN g |-> Mul(s.al \div 256, g[k]) + Scale16(s.mv[k], s.c.mom)])
Plain(s, new) == [s EXCEPT !.p = new, !.mv = TLCEval([k \in DOMAIN new |-> new[k] - s.p[k]]), !.al = Scale16(@, s.c.decay)]
(* RProp: move one step along the sign; then adapt the step to the change of sign *)
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Theta(s, k, sg) == LET x == s.lg[k] * sg
                   IN Clip(IF x > 0 THEN Scale16(s.th[k], s.c.etap) ELSE IF x < 0 THEN Scale16(s.th[k], s.c.etam) ELSE s.th[k], s.c.dmin, s.c.dmax)
Memory(s, k, sg) == IF s.lg[k] * sg < 0 THEN 0 ELSE sg
Rprop(s, sgs, new) == [s EXCEPT !.p = new, !.th = TLCEval([k \in DOMAIN sgs |-> Theta(s, k, sgs[k])]),
                                !.lg = TLCEval([k \in DOMAIN sgs |-> Memory(s, k, sgs[k])])]
RpropDelta(s, sgs) == [k \in DOMAIN sgs |-> sgs[k] * (s.th[k] \div 256)]
(* the sign of an almost vanishing gradient is taken from the recorded move *)
SignOf(g, moved, gtol) == IF Abs(g) > gtol THEN Sgn(g) ELSE IF gtol = 0 THEN Sgn(g) ELSE Sgn(moved)
UpdatePlain(s, g, new) == [s |-> Plain(s, new), bad |-> IF NearV(new, Vadd(s.p, PlainDelta(s, g)), 8, 400) THEN {} ELSE {"update"}]
UpdateRprop(s, g, new, gtol) ==
  IF Len(new) # Len(s.p) THEN [s |-> s, bad |-> {"number of parameters"}] ELSE
  LET sgs == TLCEval([k \in DOMAIN g |-> SignOf(g[k], new[k] - s.p[k], gtol)])
  IN [s |-> Rprop(s, sgs, new), bad |-> IF NearV(new, Vadd(s.p, RpropDelta(s, sgs)), 3, 4000) THEN {} ELSE {"rprop update"}]

(* ----------------------------------------------------------- the network *)
W(c, p, grp) == LET l == c.lay[grp] IN [k \in DOMAIN l |-> p[l[k]]]
MatVec(w, x, no) == LET n == Len(x) IN [j \in 1..no |-> SumSeq([i \in 1..n |-> Mul(w[(j - 1) * n + i], x[i])])]
MatTVec(w, e, ni) == LET n == Len(e) IN [i \in 1..ni |-> SumSeq([j \in 1..n |-> Mul(w[(j - 1) * ni + i], e[j])])]
Outer(e, x) == LET n == Len(x) IN [q \in 1..(Len(e) * n) |-> Mul(e[((q - 1) \div n) + 1], x[((q - 1) % n) + 1])]
AddIf(flag, v, w) == IF flag THEN Vadd(v, w) ELSE v
Act(c, v) == IF c.hid = "tanh" THEN [k \in DOMAIN v |-> Tanh(v[k])] ELSE v
ActD(c, h, e) == IF c.hid = "tanh" THEN [k \in DOMAIN h |-> Mul(One - Mul(h[k], h[k]), e[k])] ELSE e
RECURSIVE Hidden(_, _, _, _)
Hidden(c, p, seq, hs) ==   \* activations of the hidden layer for every sample
  IF Len(hs) = Len(seq) THEN hs
  ELSE LET x == seq[Len(hs) + 1].x
           a1 == MatVec(W(c, p, "i"), x, c.nh)
           a2 == AddIf(c.lay.bi # <<>>, a1, W(c, p, "bi"))
           a3 == IF c.lay.r # <<>> /\ hs # <<>> THEN Vadd(a2, MatVec(W(c, p, "r"), hs[Len(hs)], c.nh)) ELSE a2
       IN Hidden(c, p, seq, Append(hs, TLCEval(Act(c, a3))))
Outputs(c, p, seq) ==
  LET hs == IF c.nh = 0 THEN <<>> ELSE Hidden(c, p, seq, <<>>)
      bo == c.lay.bo # <<>>
  IN [h |-> hs, y |-> TLCEval([t \in DOMAIN seq |-> AddIf(bo, MatVec(W(c, p, "o"), IF c.nh = 0 THEN seq[t].x ELSE hs[t], c.no), W(c, p, "bo"))])]
Imp(sm, k) == IF sm.w = <<>> THEN One ELSE sm.w[k]
OutErr(sm, y) == [k \in DOMAIN y |-> sm.t[k] - y[k]]
SqErr(c, p, seq) == LET y == Outputs(c, p, seq).y
                    IN SumSeq([t \in DOMAIN seq |-> LET e == OutErr(seq[t], y[t]) IN SumSeq([k \in DOMAIN e |-> Mul3(Imp(seq[t], k), e[k], e[k])])]) \div 2
Pond(c, seq) == SumSeq([t \in DOMAIN seq |-> IF seq[t].w = <<>> THEN c.no * One ELSE SumSeq(seq[t].w)])
Acc(g, lay, v) == IF lay = <<>> THEN g ELSE [k \in DOMAIN g |-> IF \E q \in DOMAIN lay : lay[q] = k
                                              THEN g[k] + v[CHOOSE q \in DOMAIN lay : lay[q] = k] ELSE g[k]]
RECURSIVE BackT(_, _, _, _, _, _, _)
BackT(c, p, seq, o, t, g, da) ==  \* da: error at the hidden net input of the following step
  IF t = 0 THEN g
  ELSE LET sm == seq[t]
           e == OutErr(sm, o.y[t])
           oe == TLCEval([k \in DOMAIN e |-> Mul(Imp(sm, k), e[k])])
           src == IF c.nh = 0 THEN sm.x ELSE o.h[t]
           g1 == Acc(Acc(g, c.lay.o, Outer(oe, src)), c.lay.bo, oe)
       IN IF c.nh = 0 THEN BackT(c, p, seq, o, t - 1, TLCEval(g1), <<>>)
          ELSE LET he == AddIf(c.lay.r # <<>> /\ da # <<>>, MatTVec(W(c, p, "o"), oe, c.nh), IF da = <<>> THEN <<>> ELSE MatTVec(W(c, p, "r"), da, c.nh))
                   d == TLCEval(ActD(c, o.h[t], he))
                   g2 == Acc(Acc(g1, c.lay.i, Outer(d, sm.x)), c.lay.bi, d)
                   g3 == IF t > 1 /\ c.lay.r # <<>> THEN Acc(g2, c.lay.r, Outer(d, o.h[t - 1])) ELSE g2
               IN BackT(c, p, seq, o, t - 1, TLCEval(g3), d)
(* minus the derivative of the squared error of one sequence *)
Gradient(c, p, seq) == BackT(c, p, seq, Outputs(c, p, seq), Len(seq), Zero(Len(p)), <<>>)
Decayed(c, p, g) == IF c.wd = 0 THEN g ELSE TLCEval([k \in DOMAIN g |-> g[k] - Scale16(p[k], c.wd)])

(* -------------------------------------------------- one epoch, as recorded
   log: for every activation of the network the input and the parameters at that moment *)
Inputs(seq) == [t \in DOMAIN seq |-> seq[t].x]
Shown(log, from, n) == [t \in 1..n |-> log[from + t - 1].x]
RECURSIVE Epoch(_, _, _, _, _, _, _)
Epoch(s, b, at, left, g, err, pond) ==
  LET c == s.c IN
  IF left = {} THEN [s |-> s, g |-> g, err |-> err, pond |-> pond, bad |-> IF at = Len(b.log) + 1 THEN {} ELSE {"more samples presented than there are"}]
  ELSE LET cand == {q \in left : at + Len(c.data[q]) - 1 <= Len(b.log) /\ Shown(b.log, at, Len(c.data[q])) = Inputs(c.data[q])}
       IN IF cand = {} THEN [s |-> s, g |-> g, err |-> err, pond |-> pond, bad |-> {"presentation of the sequences"}]
          ELSE LET q == CHOOSE q \in cand : \A z \in cand : Len(c.data[z]) <= Len(c.data[q])
                   seq == c.data[q]
                   nx == at + Len(seq)
                   gr == Gradient(c, s.p, seq)
                   e == err + SqErr(c, s.p, seq)
                   w == pond + Pond(c, seq)
                   same == \A t \in at..(nx - 1) : b.log[t].p = s.p
                   new == IF nx <= Len(b.log) THEN b.log[nx].p ELSE b.final
               IN IF ~same THEN [s |-> s, g |-> g, err |-> e, pond |-> w, bad |-> {"parameters during a sequence"}]
                  ELSE IF c.tr = "bp" /\ ~c.batch
                       THEN LET u == UpdatePlain(s, Decayed(c, s.p, gr), new)
                            IN IF u.bad # {} THEN [s |-> s, g |-> g, err |-> e, pond |-> w, bad |-> u.bad]
                               ELSE Epoch(u.s, b, nx, left \ {q}, g, e, w)
                       ELSE Epoch(s, b, nx, left \ {q}, TLCEval(Vadd(g, gr)), e, w)
TrainStep(s, b) ==
  LET c == s.c
      r == Epoch(s, b, 1, DOMAIN c.data, Zero(Len(s.p)), 0, 0)
      u == IF r.bad # {} THEN [s |-> s, bad |-> r.bad]
           ELSE IF c.tr = "bp" /\ ~c.batch THEN [s |-> r.s, bad |-> IF b.final = r.s.p THEN {} ELSE {"final parameters"}]
           ELSE LET g == Decayed(c, s.p, r.g) IN
                IF c.tr = "bp" THEN UpdatePlain(r.s, g, b.final) ELSE UpdateRprop(r.s, g, b.final, 24)
  IN [s |-> [u.s EXCEPT !.n = @ + 1],
      bad |-> u.bad \cup (IF r.bad = {} /\ ~b.noret /\ ~Near(b.ret, Div(r.err, r.pond), 6, 60) THEN {"reported error"} ELSE {})
                    \cup (IF b.epochs # s.n + 1 THEN {"epoch count"} ELSE {})]
RECURSIVE TotalErr(_, _, _)
TotalErr(s, k, acc) == IF k > Len(s.c.data) THEN acc
                       ELSE TotalErr(s, k + 1, [e |-> acc.e + SqErr(s.c, s.p, s.c.data[k]), w |-> acc.w + Pond(s.c, s.c.data[k])])
AllOut(s) == LET RECURSIVE F(_)
                 F(k) == IF k > Len(s.c.data) THEN <<>> ELSE Outputs(s.c, s.p, s.c.data[k]).y \o F(k + 1) IN F(1)
AllTgt(s) == LET RECURSIVE F(_)
                 F(k) == IF k > Len(s.c.data) THEN <<>> ELSE [t \in DOMAIN s.c.data[k] |-> s.c.data[k][t].t] \o F(k + 1) IN F(1)
(* natural gradient of integer samples: cov * delta = sum; M = k(k-1) cov *)
NatBad(s, b, smp) ==
  LET k == Len(smp)
      n == Len(s.p)
      S(i) == SumSeq([q \in 1..k |-> smp[q][i]])
      M(i, j) == k * SumSeq([q \in 1..k |-> smp[q][i] * smp[q][j]]) - S(i) * S(j)
      d == [i \in 1..n |-> b.ret[i] - s.p[i]]
  IN IF \A i \in 1..n : Near(SumSeq([j \in 1..n |-> M(i, j) * d[j]]), k * (k - 1) * S(i) * One, 4 * SumSeq([j \in 1..n |-> Abs(M(i, j))]), 0)
     THEN {} ELSE {"natural gradient"}
ok(s) == [s |-> s, bad |-> {}]
TDo(s, b) ==
  IF b.err # "" THEN [s |-> s, bad |-> {"raised " \o b.err}] ELSE
  CASE b.op = "grad" ->  \* the helper is called with gradient g and returns the new values
         LET u == CASE s.c.tr = "gd" -> UpdatePlain(s, b.g, b.ret)
                    [] s.c.tr = "gdr" -> UpdateRprop(s, b.g, b.ret, 0)
                    [] s.c.tr = "nat" -> LET smp == Append(s.smp, b.g) IN
                         IF Len(smp) < s.c.batchn THEN [s |-> [s EXCEPT !.smp = smp], bad |-> IF b.ret = <<>> THEN {} ELSE {"update too early"}]
                         ELSE IF Len(b.ret) # Len(s.p) THEN [s |-> s, bad |-> {"no update"}]
                         ELSE [s |-> [s EXCEPT !.p = b.ret, !.smp = <<>>], bad |-> NatBad(s, b, smp)]
         IN [s |-> u.s, bad |-> u.bad \cup (IF b.after # b.g THEN {"the gradient of the caller is modified"} ELSE {})]
    [] b.op = "init" -> ok([TInit0(s.c) EXCEPT !.p = b.x, !.al = s.al])
    [] b.op = "setp" -> ok([s EXCEPT !.p = b.final])
    [] b.op = "train" -> TrainStep(s, b)
    [] b.op = "test" -> LET t == TotalErr(s, 1, [e |-> 0, w |-> 0])
                        IN [s |-> s, bad |-> (IF Near(b.ret, Div(t.e, t.w), 6, 60) THEN {} ELSE {"error on data"})
                                             \cup (IF b.final # s.p THEN {"parameters changed"} ELSE {})]
    [] b.op = "classes" -> LET y == AllOut(s)
                               z == AllTgt(s)
                               mx(v) == MaxSeq(v)
                           IN [s |-> s, bad |-> (IF Len(b.ret) # Len(y) \/ \E k \in DOMAIN y : y[k][b.ret[k] + 1] < mx(y[k]) - 12 THEN {"predicted class"} ELSE {})
                                                \cup (IF Len(b.tgt) # Len(z) \/ \E k \in DOMAIN z : z[k][b.tgt[k] + 1] < mx(z[k]) THEN {"target class"} ELSE {})
                                                \cup (IF b.final # s.p THEN {"parameters changed"} ELSE {})]

(* ------------------------------------------------ exploration of the helper *)
TOps(s) == IF s.c.tr \in {"gd", "gdr"} /\ s.n < 6 THEN {[op |-> "grad", g |-> <<a, b>>] : a \in {-8192, 0, 4096}, b \in {-2048, 6144}} ELSE {}
TNext0(s, op) ==
  LET t == IF s.c.tr = "gd" THEN Plain(s, TLCEval(Vadd(s.p, PlainDelta(s, op.g))))
           ELSE LET sg == [k \in DOMAIN op.g |-> Sgn(op.g[k])] IN Rprop(s, sg, TLCEval(Vadd(s.p, RpropDelta(s, sg))))
  IN [t EXCEPT !.n = @ + 1]
StepInv(s) == s.c.tr = "gdr" => \A k \in DOMAIN s.th : s.c.dmin <= s.th[k] /\ s.th[k] <= s.c.dmax
RateInv(s) == s.al <= s.c.alpha
(* the gradient is minus the slope of the squared error *)
SlopeInv(s) == s.c.data # <<>> => \A q \in DOMAIN s.c.data : LET g == Gradient(s.c, s.p, s.c.data[q]) IN
   \A k \in DOMAIN s.p : Near(-g[k], 4 * (SqErr(s.c, [s.p EXCEPT ![k] = @ + 512], s.c.data[q]) - SqErr(s.c, [s.p EXCEPT ![k] = @ - 512], s.c.data[q])), 120, 20)
=============================================================================
