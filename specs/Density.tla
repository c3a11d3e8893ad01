------------------------------ MODULE Density ------------------------------
(* Learning a model of the data itself: restricted Boltzmann machines trained
   by contrastive divergence, deep belief networks trained layer by layer, and
   mixture density networks trained on the likelihood of their targets.
   Numbers are fixed point (4096 units); a weight matrix is stored with one
   row for every unit it leads to. *)
EXTENDS Fixed, FiniteSets
Dot(a, b) == SumSeq([k \in DOMAIN b |-> Mul(a[k], b[k])])
Row(W, j, n) == SubSeq(W, (j - 1) * n + 1, j * n)
(* W (rows of n) applied to x, plus b *)
Lin(W, b, x) == TLCEval([j \in DOMAIN b |-> b[j] + Dot(Row(W, j, Len(x)), x)])
SigV(v) == TLCEval([j \in DOMAIN v |-> Sig(v[j])])
Transpose(W, nh, nv) == TLCEval([k \in 1..(nh * nv) |-> W[((k - 1) % nh) * nv + ((k - 1) \div nh) + 1]])
Zeros(n) == [k \in 1..n |-> 0]
Add(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
(*---- restricted Boltzmann machines ----------------------------------------*)
Hidden(m, x) == SigV(Lin(m.W, m.hb, x))
Visible(m, h) == SigV(Lin(Transpose(m.W, Len(m.hb), Len(m.vb)), m.vb, h))
Draw(D, k) == IF k \in DOMAIN D THEN D[k] ELSE 0
(* one row: positive and negative statistics; tie when the comparison of a probability and a draw is too close to call *)
CDRow(m, c, x, D, off) ==
  LET p == Hidden(m, x)
      s == TLCEval(IF c.gauss THEN [j \in DOMAIN p |-> p[j] + Draw(D, off + j)] ELSE [j \in DOMAIN p |-> IF p[j] > Draw(D, off + j) THEN One ELSE 0])
      v == Visible(m, s)
      q == Hidden(m, v)
      nv == Len(x)
  IN [w |-> TLCEval([k \in 1..(Len(p) * nv) |-> LET j == ((k - 1) \div nv) + 1
                                                    i == ((k - 1) % nv) + 1
                                                IN Mul(x[i], p[j]) - Mul(v[i], q[j])]),
      h |-> [j \in DOMAIN p |-> p[j] - q[j]], v |-> [i \in DOMAIN x |-> x[i] - v[i]],
      tie |-> ~c.gauss /\ \E j \in DOMAIN p : Abs(p[j] - Draw(D, off + j)) <= 40]
RECURSIVE CDRows(_, _, _, _, _, _)
CDRows(m, c, rows, D, off, acc) ==
  IF rows = <<>> THEN acc
  ELSE LET d == CDRow(m, c, Head(rows), D, off)
       IN CDRows(m, c, Tail(rows), D, off + Len(m.hb), TLCEval([w |-> Add(acc.w, d.w), h |-> Add(acc.h, d.h), v |-> Add(acc.v, d.v), tie |-> acc.tie \/ d.tie]))
Mean(v, n) == [k \in DOMAIN v |-> v[k] \div n]
(* the iterations on one batch; the momentum starts anew with the batch *)
RECURSIVE Iter(_, _, _, _, _, _, _)
Iter(m, c, rows, D, off, old, t) ==
  IF t = c.iters THEN m
  ELSE LET n == Len(rows)
           nh == Len(m.hb)
           s == CDRows(m, c, rows, D, off, [w |-> Zeros(Len(m.W)), h |-> Zeros(nh), v |-> Zeros(Len(m.vb)), tie |-> FALSE])
           mm == IF t < c.switch THEN c.mm1 ELSE c.mm2
           u == TLCEval([w |-> [k \in DOMAIN m.W |-> Mul(old.w[k], mm) + Mul(c.rw, (s.w[k] \div n) - Mul(c.cost, m.W[k]))],
                         h |-> [k \in DOMAIN m.hb |-> Mul(old.h[k], mm) + Mul(c.rh, s.h[k] \div n)],
                         v |-> [k \in DOMAIN m.vb |-> Mul(old.v[k], mm) + Mul(c.rv, s.v[k] \div n)]])
       IN Iter(TLCEval([m EXCEPT !.W = Add(@, u.w), !.hb = Add(@, u.h), !.vb = Add(@, u.v), !.tie = @ \/ s.tie]), c, rows, D, off + n * nh, u, t + 1)
Start(m) == [w |-> Zeros(Len(m.W)), h |-> Zeros(Len(m.hb)), v |-> Zeros(Len(m.vb))]
RECURSIVE Batches(_, _, _, _, _)
Batches(m, c, bs, D, off) ==
  IF bs = <<>> THEN m ELSE Batches(Iter(m, c, Head(bs), D, off, Start(m), 0), c, Tail(bs), D, off + c.iters * Len(Head(bs)) * Len(m.hb))
(*---- deep belief networks: a chain of such machines -----------------------*)
RECURSIVE Epochs(_, _, _, _, _, _)
Epochs(m, c, rows, D, off, n) == IF n = 0 THEN m ELSE Epochs(Iter(m, c, rows, D, off, Start(m), 0), c, rows, D, off + c.iters * Len(rows) * Len(m.hb), n - 1)
RECURSIVE Greedy(_, _, _, _, _, _, _)
Greedy(ms, c, rows, D, off, epochs, k) ==
  IF k > Len(ms) THEN ms
  ELSE LET m == Epochs([ms[k] EXCEPT !.vb = [i \in DOMAIN @ |-> c.ib]], c, rows, D, off, epochs)
       IN Greedy(TLCEval([ms EXCEPT ![k] = m]), c, TLCEval([r \in DOMAIN rows |-> Hidden(m, rows[r])]), D, off + epochs * c.iters * Len(rows) * Len(m.hb), epochs, k + 1)
RECURSIVE Chain(_, _)
Chain(ms, x) == IF ms = <<>> THEN x ELSE Chain(Tail(ms), Hidden(Head(ms), x))
(*---- mixture densities ----------------------------------------------------*)
(* the units of the layer: K mixing activations, K logarithms of deviations, K means *)
LnSum(v) == LET mx == MaxSeq(v) IN mx + Ln(SumSeq([k \in DOMAIN v |-> Exp(v[k] - mx)]))
Units(o, x) == Lin(o.W, o.b, x)
MeanOf(o, a, k) == SubSeq(a, 2 * o.K + (k - 1) * o.nd + 1, 2 * o.K + k * o.nd)
Dist2(a, b) == SumSeq([i \in DOMAIN a |-> Mul(a[i] - b[i], a[i] - b[i])])
(* Dist2 / sigma^2 *)
Maha(o, a, t) == TLCEval([k \in 1..o.K |-> Mul(Dist2(MeanOf(o, a, k), t), Exp(-2 * a[o.K + k]))])
HalfLn2Pi == 3764
Joint(o, a, t) == LET z == LnSum(SubSeq(a, 1, o.K))
                      q == Maha(o, a, t)
                  IN TLCEval([k \in 1..o.K |-> (a[k] - z) - (q[k] \div 2) - (o.nd * a[o.K + k]) - (o.nd * HalfLn2Pi)])
NLL(o, a, t) == -LnSum(Joint(o, a, t))
(* the downhill direction with respect to the activations of the units *)
Downhill(o, a, t) ==
  LET c == Softmax(SubSeq(a, 1, o.K))
      g == Softmax(Joint(o, a, t))
      q == Maha(o, a, t)
  IN TLCEval([u \in 1..(o.K * (o.nd + 2)) |->
       IF u <= o.K THEN g[u] - c[u]
       ELSE IF u <= 2 * o.K THEN Mul(g[u - o.K], q[u - o.K] - o.nd * One)
       ELSE LET k == (((u - 2 * o.K) - 1) \div o.nd) + 1
                i == (((u - 2 * o.K) - 1) % o.nd) + 1
            IN Mul(Mul(g[k], t[i] - MeanOf(o, a, k)[i]), Exp(-2 * a[o.K + k]))])
Outputs(o, a) == LET c == Softmax(SubSeq(a, 1, o.K)) IN [u \in DOMAIN a |-> IF u <= o.K THEN c[u] ELSE IF u <= 2 * o.K THEN Exp(a[u]) ELSE a[u]]
RECURSIVE Grads(_, _, _)
Grads(o, data, acc) ==
  IF data = <<>> THEN acc
  ELSE LET x == Head(data).x
           a == Units(o, x)
           d == Downhill(o, a, Head(data).t)
       IN Grads(o, Tail(data), TLCEval([e |-> acc.e + NLL(o, a, Head(data).t), b |-> Add(acc.b, d),
                                        W |-> [k \in DOMAIN o.W |-> acc.W[k] + Mul(d[((k - 1) \div Len(x)) + 1], x[((k - 1) % Len(x)) + 1])]]))
Grad(o, data) == Grads(o, data, [e |-> 0, b |-> Zeros(Len(o.b)), W |-> Zeros(Len(o.W))])
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Step(o, g, v) == [k \in DOMAIN v |-> v[k] + IF o.rprop THEN 410 * Sgn(g[k]) ELSE Mul(o.rate, g[k])]
(* where the sign of the slope is not clear, either way is right *)
Moved(o, g, v, w) == Len(w) = Len(v) /\ \A k \in DOMAIN v : Near(w[k], Step(o, g, v)[k], 16, 128) \/ (o.rprop /\ Abs(g[k]) <= 32 /\ Abs(w[k] - v[k]) <= 411)
(*---- the system -----------------------------------------------------------*)
Mach(W, hb, vb) == [W |-> W, hb |-> hb, vb |-> vb, tie |-> FALSE]
DInit0(cfg) ==
  CASE cfg.kind = "rbm" -> [kind |-> "rbm", c |-> cfg.c, m |-> Mach(cfg.W, cfg.hb, cfg.vb), lost |-> FALSE, ops |-> {}, n |-> 0, size |-> 0]
    [] cfg.kind = "dbn" -> [kind |-> "dbn", c |-> cfg.c, rows |-> cfg.rows, ms |-> [k \in DOMAIN cfg.layers |-> Mach(cfg.layers[k].W, cfg.layers[k].hb, Zeros(Len(cfg.layers[k].W) \div Len(cfg.layers[k].hb)))],
                            lost |-> FALSE, ops |-> {}, n |-> 0, size |-> 0]
    [] OTHER -> [kind |-> "mix", K |-> cfg.K, rate |-> cfg.rate, rprop |-> cfg.rprop, W |-> cfg.W, b |-> cfg.b, lost |-> FALSE, ops |-> {}, nd |-> cfg.n, n |-> 0, size |-> 0]
NV(a, b) == NearV(a, b, 24, 128)
Halve(v) == [k \in DOMAIN v |-> v[k] \div 2]
(* the state after an operation, [s, ok]; observed weights that agree replace the computed ones *)
Judge(o, op) ==
  LET r == op.res IN
  IF o.lost THEN [ok |-> TRUE, s |-> o]
  ELSE IF r.err # "" THEN [ok |-> FALSE, s |-> o]
  ELSE CASE o.kind = "rbm" /\ op.op = "train" ->
              LET m == Batches(o.m, o.c, op.batches, op.draws, 0)
              IN IF m.tie THEN [ok |-> TRUE, s |-> [o EXCEPT !.lost = TRUE]]
                 ELSE [ok |-> NV(r.W, m.W) /\ NV(r.hb, m.hb) /\ NV(r.vb, m.vb), s |-> [o EXCEPT !.m = Mach(r.W, r.hb, r.vb)]]
         [] o.kind = "rbm" /\ op.op = "act" -> [ok |-> NV(r.y, Hidden(o.m, op.x)), s |-> o]
         [] o.kind = "rbm" /\ op.op = "rec" -> [ok |-> NV(r.y, Visible(o.m, op.x)), s |-> o]
         [] o.kind = "rbm" /\ op.op = "inv" -> [ok |-> r.dims = <<Len(o.m.hb), Len(o.m.vb)>> /\ NV(r.y, Visible([o.m EXCEPT !.vb = op.b], op.x)), s |-> o]
         [] o.kind = "dbn" /\ op.op = "train" ->
              LET ms == Greedy(o.ms, o.c, o.rows, op.draws, 0, op.epochs, 1)
              IN IF \E k \in DOMAIN ms : ms[k].tie THEN [ok |-> TRUE, s |-> [o EXCEPT !.lost = TRUE]]
                 ELSE [ok |-> Len(r.W) = Len(ms) /\ (\A k \in DOMAIN ms : NV(r.W[k], ms[k].W) /\ NV(r.hb[k], ms[k].hb) /\ NV(r.vb[k], ms[k].vb)),
                       s |-> [o EXCEPT !.ms = [k \in DOMAIN ms |-> [ms[k] EXCEPT !.W = r.W[k], !.hb = r.hb[k]]]]]
         [] o.kind = "dbn" /\ op.op = "act" -> [ok |-> NV(r.y, Chain(o.ms, op.x)), s |-> o]
         [] o.kind = "dbn" /\ op.op = "piece" -> [ok |-> r.count = Len(o.ms) /\ NV(r.y, Hidden(o.ms[op.k], op.x)), s |-> o]
         [] o.kind = "dbn" /\ op.op = "halve" -> [ok |-> TRUE, s |-> [o EXCEPT !.ms = [k \in DOMAIN @ |-> [@[k] EXCEPT !.W = Halve(@), !.hb = Halve(@)]]]]
         [] o.kind = "mix" /\ op.op = "epoch" ->
              LET g == Grad(o, op.data)
              IN [ok |-> Near(r.e, g.e \div Len(op.data), 24, 128) /\ Moved(o, g.W, o.W, r.W) /\ Moved(o, g.b, o.b, r.b), s |-> [o EXCEPT !.W = r.W, !.b = r.b]]
         [] o.kind = "mix" /\ op.op = "act" -> [ok |-> NV(r.y, Outputs(o, Units(o, op.x))), s |-> o]
         [] OTHER -> [ok |-> FALSE, s |-> o]
DDo(o, op) ==
  LET j == Judge(o, op)
  IN [s |-> j.s, bad |-> IF j.ok THEN {} ELSE IF op.res.err # "" THEN {"raised " \o op.res.err} ELSE {"the outcome of " \o op.op}]
(*---- exploration ----------------------------------------------------------*)
DOps(o) == IF o.n >= o.size THEN {} ELSE o.ops
DNext0(o0, op) ==
  LET o == [o0 EXCEPT !.n = @ + 1] IN
  CASE o.kind = "rbm" /\ op.op = "train" -> [o EXCEPT !.m = [Batches(@, o.c, op.batches, op.draws, 0) EXCEPT !.tie = FALSE]]
    [] o.kind = "dbn" /\ op.op = "train" -> LET ms == Greedy(o.ms, o.c, o.rows, op.draws, 0, op.epochs, 1) IN [o EXCEPT !.ms = [k \in DOMAIN ms |-> [ms[k] EXCEPT !.tie = FALSE]]]
    [] o.kind = "dbn" /\ op.op = "halve" -> [o EXCEPT !.ms = [k \in DOMAIN @ |-> [@[k] EXCEPT !.W = Halve(@), !.hb = Halve(@)]]]
    [] o.kind = "mix" /\ op.op = "epoch" -> LET g == Grad(o, op.data) IN [o EXCEPT !.W = Step(o, g.W, @), !.b = Step(o, g.b, @)]
    [] OTHER -> o
=============================================================================
