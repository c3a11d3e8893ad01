------------------------------ MODULE Modules ------------------------------
(* Every module type as a state machine over fixed-point vectors.
   cfg: k (type), n (size), peep, nd (dimensions), len (slice length / mixtures), rows, cols,
        wrap "bare" (the module alone), "ff" / "rec" (between two linear layers of a network),
        p0 initial parameters, auto (autoalpha), on (noise enabled), one (one sigma)
   state: p parameters, d derivatives, hist the steps since reset, bt steps not yet propagated back,
          nxt error terms of the following step, st external state (state-dependent exploration) *)
EXTENDS Fixed, FiniteSets
Zero(n) == [k \in 1..n |-> 0]
Vadd(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
Part(v, from, n) == SubSeq(v, from + 1, from + n)
InDim(c) == CASE c.k \in {"mul", "gate", "dgate"} -> 2 * c.n
              [] c.k = "bias" -> 0 [] c.k = "lstm" -> 4 * c.n
              [] c.k = "mdlstm" -> (3 + 2 * c.nd) * c.n
              [] c.k = "mix" -> c.len * (c.n + 2) [] c.k = "table" -> 2
              [] OTHER -> c.n
OutDim(c) == CASE c.k \in {"dgate", "switch", "mdlstm"} -> 2 * c.n
               [] c.k = "bias" -> 1 [] c.k = "table" -> 1 [] c.k = "koho" -> 2
               [] c.k = "mix" -> c.len * (c.n + 2) [] OTHER -> c.n
PDim(c) == CASE c.k = "lstm" -> IF c.peep THEN 3 * c.n ELSE 0
             [] c.k = "mdlstm" -> IF c.peep THEN (2 + c.nd) * c.n ELSE 0
             [] c.k = "gauss" -> c.n
             [] c.k = "sdep" -> IF c.one THEN 1 ELSE c.n * c.len
             [] c.k = "table" -> c.rows * c.cols
             [] OTHER -> 0
Map(F(_), x) == TLCEval([k \in DOMAIN x |-> F(x[k])])
Noisy(c) == c.k \in {"gauss", "sdep", "bern"}
SoftSign(x) == Div(x, One + Abs(x))

(* ------------------------------------------------------------- LSTM step *)
LstmF(c, p, x, prev) ==  \* prev: the previous cell state, <<>> at the first step
  LET n == c.n
      px(o, j) == IF c.peep /\ prev # <<>> THEN Mul(p[o + j], prev[j]) ELSE 0
      igx == [j \in 1..n |-> x[j] + px(0, j)]
      fgx == [j \in 1..n |-> x[n + j] + px(n, j)]
      ig == Map(Sig, igx)
      fg == Map(Sig, fgx)
      s == TLCEval([j \in 1..n |-> Mul(ig[j], Tanh(x[2 * n + j])) + (IF prev = <<>> THEN 0 ELSE Mul(fg[j], prev[j]))])
      ogx == [j \in 1..n |-> x[3 * n + j] + (IF c.peep THEN Mul(p[2 * n + j], s[j]) ELSE 0)]
      og == Map(Sig, ogx)
  IN [x |-> x, prev |-> prev, ig |-> ig, fg |-> fg, og |-> og, s |-> s,
      y |-> TLCEval([j \in 1..n |-> Mul(og[j], Tanh(s[j]))])]
G(s) == Mul(s, One - s)
LstmB(c, p, h, nxt, oe) ==
  LET n == c.n
      oge == TLCEval([j \in 1..n |-> Mul3(G(h.og[j]), oe[j], Tanh(h.s[j]))])
      se == TLCEval([j \in 1..n |->
               Mul3(oe[j], h.og[j], TanhD(h.s[j])) + (IF c.peep THEN Mul(oge[j], p[2 * n + j]) ELSE 0)
               + (IF nxt = <<>> THEN 0 ELSE Mul(nxt[1].se[j], nxt[1].fg[j])
                    + (IF c.peep THEN Mul(nxt[1].ige[j], p[j]) + Mul(nxt[1].fge[j], p[n + j]) ELSE 0))])
      cx(j) == h.x[2 * n + j]
      ige == TLCEval([j \in 1..n |-> Mul3(G(h.ig[j]), se[j], Tanh(cx(j)))])
      fge == TLCEval([j \in 1..n |-> IF h.prev = <<>> THEN 0 ELSE Mul3(G(h.fg[j]), se[j], h.prev[j])])
      ce == [j \in 1..n |-> Mul3(h.ig[j], TanhD(cx(j)), se[j])]
      pv(j) == IF h.prev = <<>> THEN 0 ELSE h.prev[j]
  IN [ie |-> TLCEval(ige \o fge \o ce \o oge),
      d |-> IF c.peep THEN TLCEval([j \in 1..n |-> Mul(ige[j], pv(j))] \o [j \in 1..n |-> Mul(fge[j], pv(j))]
                                   \o [j \in 1..n |-> Mul(oge[j], h.s[j])]) ELSE <<>>,
      nxt |-> <<[se |-> se, ige |-> ige, fge |-> fge, fg |-> h.fg]>>]

(* ---------------------------------------------------------------- MDLSTM *)
MdF(c, p, x) ==
  LET n == c.n
      D == c.nd
      last(i, j) == x[n * (3 + D + i) + j]          \* i = 0..D-1
      igx(j) == x[j] + (IF c.peep THEN SumSeq([i \in 1..D |-> Mul(p[j], last(i - 1, j))]) ELSE 0)
      fgx(i, j) == x[n * (1 + i) + j] + (IF c.peep THEN Mul(p[n * (1 + i) + j], last(i, j)) ELSE 0)
      ig == TLCEval([j \in 1..n |-> Sig(igx(j))])
      fg == TLCEval([q \in 1..(n * D) |-> Sig(fgx((q - 1) \div n, ((q - 1) % n) + 1))])
      s == TLCEval([j \in 1..n |-> Mul(ig[j], Tanh(x[n * (1 + D) + j])) + SumSeq([i \in 1..D |-> Mul(fg[n * (i - 1) + j], last(i - 1, j))])])
      og == TLCEval([j \in 1..n |-> Sig(x[n * (2 + D) + j] + (IF c.peep THEN Mul(p[n * (1 + D) + j], s[j]) ELSE 0))])
  IN [x |-> x, ig |-> ig, fg |-> fg, s |-> s, og |-> og, y |-> TLCEval([j \in 1..n |-> Mul(og[j], Tanh(s[j]))] \o s)]
MdB(c, p, h, oe) ==
  LET n == c.n
      D == c.nd
      x == h.x
      last(i, j) == x[n * (3 + D + i) + j]
      oge == TLCEval([j \in 1..n |-> Mul3(G(h.og[j]), oe[j], Tanh(h.s[j]))])
      se == TLCEval([j \in 1..n |-> Mul3(oe[j], h.og[j], TanhD(h.s[j])) + oe[n + j] + (IF c.peep THEN Mul(oge[j], p[n * (1 + D) + j]) ELSE 0)])
      cx(j) == x[n * (1 + D) + j]
      ige == TLCEval([j \in 1..n |-> Mul3(G(h.ig[j]), se[j], Tanh(cx(j)))])
      ce == [j \in 1..n |-> Mul3(h.ig[j], TanhD(cx(j)), se[j])]
      fge == TLCEval([q \in 1..(n * D) |-> LET i == (q - 1) \div n
                                               j == ((q - 1) % n) + 1 IN Mul3(G(h.fg[q]), se[j], last(i, j))])
      ise == [q \in 1..(n * D) |-> LET j == ((q - 1) % n) + 1
                                   IN Mul(se[j], h.fg[q]) + (IF c.peep THEN Mul(ige[j], p[j]) + Mul(fge[q], p[n + q]) ELSE 0)]
  IN [ie |-> TLCEval(ige \o fge \o ce \o oge \o ise), nxt |-> <<>>,
      d |-> IF c.peep THEN TLCEval([j \in 1..n |-> SumSeq([i \in 1..D |-> Mul(ige[j], last(i - 1, j))])]
                                   \o [q \in 1..(n * D) |-> Mul(fge[q], last((q - 1) \div n, ((q - 1) % n) + 1))]
                                   \o [j \in 1..n |-> Mul(oge[j], h.s[j])]) ELSE <<>>]

(* ----------------------------------------------------- memoryless modules *)
Flat(c, p, x) ==
  LET n == c.n IN
  CASE c.k = "lin" -> x
    [] c.k = "bias" -> <<One>>
    [] c.k = "sig" -> Map(Sig, x)
    [] c.k = "tanh" -> Map(Tanh, x)
    [] c.k = "relu" -> [k \in 1..n |-> IF x[k] > 0 THEN x[k] ELSE 0]
    [] c.k = "ssign" -> Map(SoftSign, x)
    [] c.k = "softmax" -> Softmax(x)
    [] c.k = "psoftmax" -> LET L == c.len
                               g == TLCEval([q \in 0..((n \div L) - 1) |-> Softmax(Part(x, q * L, L))])
                           IN [k \in 1..n |-> g[(k - 1) \div L][((k - 1) % L) + 1]]
    [] c.k = "mul" -> [j \in 1..n |-> Mul(x[j], x[n + j])]
    [] c.k = "gate" -> [j \in 1..n |-> Mul(Sig(x[j]), x[n + j])]
    [] c.k = "dgate" -> [j \in 1..n |-> Mul(Sig(x[j]), x[n + j])] \o [j \in 1..n |-> Mul(One - Sig(x[j]), x[n + j])]
    [] c.k = "switch" -> Map(Sig, x) \o [j \in 1..n |-> One - Sig(x[j])]
    [] c.k = "mix" -> LET K == c.len IN Softmax(Part(x, 0, K)) \o Map(Exp, Part(x, K, K)) \o Part(x, 2 * K, Len(x) - 2 * K)
    [] c.k = "table" -> <<p[(x[1] \div One) * c.cols + (x[2] \div One) + 1]>>
    [] OTHER -> x
FlatB(c, x, e) ==
  LET n == c.n IN
  CASE c.k \in {"lin", "softmax", "psoftmax", "mix"} -> e
    [] c.k = "sig" -> [k \in 1..n |-> Mul(SigD(x[k]), e[k])]
    [] c.k = "tanh" -> [k \in 1..n |-> Mul(TanhD(x[k]), e[k])]
    [] c.k = "relu" -> [k \in 1..n |-> IF x[k] > 0 THEN e[k] ELSE 0]
    [] c.k = "ssign" -> [k \in 1..n |-> LET u == Div(One, One + Abs(x[k])) IN Mul3(e[k], u, u)]
    [] c.k = "mul" -> [j \in 1..n |-> Mul(x[n + j], e[j])] \o [j \in 1..n |-> Mul(x[j], e[j])]
    [] c.k = "gate" -> [j \in 1..n |-> Mul3(SigD(x[j]), x[n + j], e[j])] \o [j \in 1..n |-> Mul(Sig(x[j]), e[j])]
    [] c.k = "dgate" -> [j \in 1..n |-> Mul3(SigD(x[j]), x[n + j], e[j] - e[n + j])]
                        \o [j \in 1..n |-> Mul(Sig(x[j]), e[j]) + Mul(One - Sig(x[j]), e[n + j])]
    [] c.k = "switch" -> [j \in 1..n |-> Mul(SigD(x[j]), e[j] - e[n + j])]
    [] OTHER -> e
(* log-likelihood derivatives of the Gaussian layers, given the sampled output y *)
GaussB(c, p, x, y) ==
  LET ex == Map(Expln, p)
      df(k) == y[k] - x[k]
      dd(k) == Mul(Div(Mul(df(k), df(k)) - Mul(ex[k], ex[k]), ex[k]), ExplnD(p[k]))
      sq(k) == Mul(ex[k], ex[k])
  IN [ie |-> [k \in DOMAIN x |-> IF c.auto THEN df(k) ELSE Div(df(k), sq(k))],
      d |-> TLCEval([k \in DOMAIN x |-> IF c.auto THEN dd(k) ELSE Div(dd(k), sq(k))]), nxt |-> <<>>]
SdepB(c, p, x, y, z) ==  \* z: the state of the exploration
  LET n == c.n
      L == c.len
      df(k) == y[k] - x[k]
      S == SumSeq([i \in 1..L |-> Mul(z[i], z[i])])
      e1 == Expln(p[1])
      v1 == Mul(Mul(e1, e1), S)
      d1 == Mul(Div(SumSeq([k \in 1..n |-> Mul(df(k), df(k)) - v1]), e1), ExplnD(p[1]))
      ex == Map(Expln, p)
      v == TLCEval([j \in 1..n |-> SumSeq([i \in 1..L |-> LET t == Mul(z[i], ex[(j - 1) * L + i]) IN Mul(t, t)])])
      dq(q) == LET j == ((q - 1) \div L) + 1
                   i == ((q - 1) % L) + 1
                   r == Mul3(Mul(Div(Mul(df(j), df(j)) - v[j], v[j]), Mul(z[i], z[i])), ex[q], ExplnD(p[q]))
               IN IF c.auto THEN r ELSE Div(r, v[j])
  IN IF c.one THEN [ie |-> [k \in 1..n |-> IF c.auto THEN df(k) ELSE Div(df(k), v1)], d |-> <<IF c.auto THEN d1 ELSE Div(d1, v1)>>, nxt |-> <<>>]
     ELSE [ie |-> [k \in 1..n |-> IF c.auto THEN df(k) ELSE Div(df(k), v[k])], d |-> TLCEval([q \in 1..(n * L) |-> dq(q)]), nxt |-> <<>>]

(* ------------------------------------------------------------------ state *)
Init0(cfg) == [c |-> cfg, p |-> cfg.p0, d |-> Zero(PDim(cfg)), hist |-> <<>>, bt |-> 0, nxt |-> <<>>, z |-> <<>>, ex |-> Zero(cfg.n), tol |-> 0, stale |-> FALSE]
Forward(s, x) ==
  LET c == s.c
      prev == IF c.wrap = "rec" /\ s.hist # <<>> THEN s.hist[Len(s.hist)].s ELSE <<>>
  IN CASE c.k = "lstm" -> LstmF(c, s.p, x, prev)
       [] c.k = "mdlstm" -> MdF(c, s.p, x)
       [] c.k = "sdep" /\ c.on -> [x |-> x, y |-> Vadd(x, s.ex), s |-> <<>>]
       [] OTHER -> [x |-> x, y |-> TLCEval(Flat(c, s.p, x)), s |-> <<>>]
Backward(s, h, e) ==
  LET c == s.c IN
  CASE c.k = "lstm" -> LstmB(c, s.p, h, s.nxt, e)
    [] c.k = "mdlstm" -> MdB(c, s.p, h, e)
    [] c.k = "gauss" -> GaussB(c, s.p, h.x, h.y)
    [] c.k = "sdep" -> SdepB(c, s.p, h.x, h.y, s.z)
    [] OTHER -> [ie |-> TLCEval(FlatB(c, h.x, e)), d |-> <<>>, nxt |-> <<>>]
(* y: the output drawn by a noisy layer (ignored by the others) *)
Act(s, x, y) ==
  LET h0 == Forward(s, x)
      h == IF (s.c.k = "gauss" /\ s.c.on) \/ s.c.k = "bern" THEN [h0 EXCEPT !.y = y] ELSE h0
  IN [s EXCEPT !.hist = IF s.c.wrap = "rec" THEN Append(@, h) ELSE <<h>>, !.bt = IF s.c.wrap = "rec" THEN @ + 1 ELSE 1,
               !.nxt = <<>>, !.ex = Zero(s.c.n)]
Back(s, e) == LET r == Backward(s, s.hist[s.bt], e)
              IN [s |-> [s EXCEPT !.d = IF r.d = <<>> THEN @ ELSE TLCEval(Vadd(@, r.d)), !.bt = @ - 1,
                                  !.nxt = r.nxt, !.tol = @ + 1], ie |-> r.ie]
Clear(s) == [s EXCEPT !.hist = <<>>, !.bt = 0, !.nxt = <<>>]
Fn(name, x) == CASE name = "sigmoid" -> Sig(x) [] name = "sigmoidPrime" -> SigD(x) [] name = "tanhPrime" -> TanhD(x)
                 [] name = "safeExp" -> Exp(x) [] name = "expln" -> Expln(x) [] name = "explnPrime" -> ExplnD(x)
                 [] name = "semilinear" -> IF x < 0 THEN Exp(x) ELSE x + One
                 [] name = "semilinearPrime" -> IF x < 0 THEN Exp(x) ELSE One
Step(s, op) ==
  CASE op.op = "act" -> LET t == Act(s, op.x, op.y) IN [s |-> t, ret |-> t.hist[Len(t.hist)].y]
    [] op.op = "back" -> LET r == Back(s, op.e) IN [s |-> r.s, ret |-> r.ie]
    [] op.op = "reset" -> [s |-> Clear(s), ret |-> <<>>]
    [] op.op = "resetd" -> [s |-> [s EXCEPT !.d = Zero(PDim(s.c)), !.tol = 0], ret |-> <<>>]
    [] op.op = "setp" -> [s |-> [s EXCEPT !.p = op.x], ret |-> <<>>]
    [] op.op = "state" -> [s |-> [s EXCEPT !.z = op.x, !.ex = TLCEval([j \in 1..s.c.n |->
                             SumSeq([i \in 1..s.c.len |-> Mul(op.w[(j - 1) * s.c.len + i], op.x[i])])])], ret |-> <<>>]
    [] op.op = "put" -> [s |-> [s EXCEPT !.p[op.x[1] * s.c.cols + op.x[2] + 1] = op.x[3]], ret |-> <<>>]
    [] op.op = "get" -> [s |-> s, ret |-> <<s.p[op.x[1] * s.c.cols + op.x[2] + 1]>>]
    [] op.op = "fn" -> [s |-> s, ret |-> Map(LAMBDA v : Fn(op.f, v), op.x)]
Next0(s, op) == Step(s, op).s
(* small exploration *)
Vec(n, a) == [k \in 1..n |-> (((k * a * 1700) % 5) - 2) * 1024 + 512 * a]
Ops(s) == LET c == s.c IN
  (IF Len(s.hist) < 3 /\ s.nxt = <<>> THEN {[op |-> "act", x |-> Vec(InDim(c), a), y |-> Vec(OutDim(c), 3)] : a \in {1, 2}} ELSE {})
  \cup (IF s.bt > 0 /\ s.tol < 4 THEN {[op |-> "back", e |-> Vec(OutDim(c), 1)]} ELSE {})
  \cup (IF s.hist # <<>> THEN {[op |-> "reset"]} ELSE {}) \cup {[op |-> "resetd"]}
-----------------------------------------------------------------------------
(* property of the specification: the backward pass is the derivative of the forward pass *)
RECURSIVE Run(_, _, _)
Run(s, xs, es) == IF xs = <<>> THEN 0
                  ELSE LET t == Act(s, Head(xs), <<>>)
                           y == t.hist[Len(t.hist)].y
                       IN SumSeq([k \in DOMAIN y |-> Mul(y[k], Head(es)[k])]) + Run(t, Tail(xs), Tail(es))
RECURSIVE Runs(_, _)
Runs(s, xs) == IF xs = <<>> THEN s ELSE Runs(Act(s, Head(xs), <<>>), Tail(xs))
RECURSIVE Backs(_, _, _)
Backs(s, es, acc) == IF es = <<>> THEN [s |-> s, ie |-> acc]
                     ELSE LET r == Back(s, es[Len(es)]) IN Backs(r.s, SubSeq(es, 1, Len(es) - 1), <<r.ie>> \o acc)
GradOk(c, xs, es) ==
  LET s0 == Init0(c)
      r == Backs(Runs(s0, xs), es, <<>>)
      H == 256
      slope(a, b) == ((a - b) * 8)
  IN /\ \A t \in DOMAIN xs : \A k \in DOMAIN xs[t] :
           Near(r.ie[t][k], slope(Run(s0, [xs EXCEPT ![t][k] = @ + H], es), Run(s0, [xs EXCEPT ![t][k] = @ - H], es)), 100, 0)
     /\ \A k \in DOMAIN c.p0 :
           Near(r.s.d[k], slope(Run([s0 EXCEPT !.p[k] = @ + H], xs, es), Run([s0 EXCEPT !.p[k] = @ - H], xs, es)), 100, 0)
-----------------------------------------------------------------------------
(* judging a recorded step: op fields + err, ret, params, derivs *)
Has(b, k) == k \in DOMAIN b
NoiseBad(s, x, y) ==
  LET c == s.c IN
  CASE c.k = "bern" -> IF \E k \in DOMAIN y : y[k] \notin {0, One} THEN {"sample is not binary"} ELSE {}
    [] c.k = "gauss" /\ c.on -> IF \E k \in DOMAIN y : Abs(y[k] - x[k]) > 8 * Expln(s.p[k]) + 2 THEN {"noise out of range"} ELSE {}
    [] OTHER -> {}
Do(s, b) ==
  IF b.err # "" THEN [s |-> s, bad |-> {"raised " \o b.err}] ELSE
  IF b.op = "act" /\ Len(b.ret) # OutDim(s.c) THEN [s |-> s, bad |-> {"output size"}] ELSE
  LET r == Step(s, IF b.op = "act" THEN [op |-> "act", x |-> b.x, y |-> b.ret] ELSE b)
      t == r.s
      rel == IF b.op = "back" THEN 60 ELSE 200
  IN [s |-> t, bad |->
       (IF ~NearV(b.ret, r.ret, IF b.op = "back" THEN 30 ELSE 12, rel)
        THEN {CASE b.op = "act" -> "output" [] b.op = "back" -> "input error" [] OTHER -> "result"} ELSE {})
       \cup (IF b.op = "act" THEN NoiseBad(s, b.x, b.ret) ELSE {})
       \cup (IF b.params # t.p THEN {"parameters"} ELSE {})
       \cup (IF ~NearV(b.derivs, t.d, 20 + 25 * t.tol, 40) THEN {"derivatives"} ELSE {})
       \cup (IF b.pdim # PDim(s.c) THEN {"parameter count"} ELSE {})]
=============================================================================
