------------------------------- MODULE Tools -------------------------------
(* The tools around training: the train-until-converged loop with its curves
   and best weights, cutting sequences into windows, normalization, pickled
   dictionaries, and readers of data files.  Errors, features and parameters
   are fixed point (4096 units); counts, labels and epochs are integers. *)
EXTENDS Fixed, FiniteSets
If(c, m) == IF c THEN {} ELSE {m}
(*---- the training loop ----------------------------------------------------*)
(* the network: regression y = p x, classification "1 if x > p"; a script gives p after each block of epochs *)
Sq(x) == x * x
RegErr(p, data) == (4096 * SumSeq([k \in DOMAIN data |-> Sq(p * data[k][1] - data[k][2])])) \div Len(data)
ClsErr(p, data) == (409600 * Cardinality({k \in DOMAIN data : (IF data[k][1] > p THEN 1 ELSE 0) # data[k][2]})) \div Len(data)
Err(o, p, data) == IF o.reg THEN RegErr(p, data) ELSE ClsErr(p, data)
PAt(script, k) == script[((k - 1) % Len(script)) + 1]
Inf == 1073741823
(* l: epochs done so far, blocks, best error, best p, blocks without improvement, and the curves *)
Block(o, script, l) ==
  LET p == PAt(script, l.k + 1)
      e == IF o.tds = <<>> THEN 0 ELSE Err(o, p, o.tds)
      better == o.tds # <<>> /\ (l.none \/ e < l.best)
  IN [k |-> l.k + 1, epoch |-> l.epoch + o.inc, p |-> p, none |-> l.none /\ ~better,
      best |-> IF better THEN e ELSE l.best, bestp |-> IF better THEN p ELSE l.bestp, bad |-> IF o.tds = <<>> THEN 0 ELSE IF better THEN 0 ELSE l.bad + 1,
      xs |-> Append(l.xs, l.epoch + o.inc), ys |-> Append(l.ys, Err(o, p, o.ds)), vs |-> IF o.tds = <<>> THEN l.vs ELSE Append(l.vs, e)]
L0 == [k |-> 0, epoch |-> 0, p |-> 0, none |-> TRUE, best |-> Inf, bestp |-> 0, bad |-> 0, xs |-> <<0>>, ys |-> <<0>>, vs |-> <<0>>]
Converged(l, conv) == conv > 0 /\ l.bad >= conv
(* the loop ends when it has converged or when the epochs are used up, with or without the block that crosses the limit *)
RECURSIVE Runs(_, _, _, _)
Runs(o, script, conv, l) ==
  IF Converged(l, conv) \/ l.epoch > o.max THEN {l}
  ELSE (IF l.k > 0 /\ l.epoch + o.inc > o.max THEN {l} ELSE {}) \cup Runs(o, script, conv, Block(o, script, l))
Final(o, l) == IF o.vds /\ ~l.none THEN l.bestp ELSE l.p
Same(q, b) == Len(q) = Len(b) /\ \A k \in DOMAIN b : Near(q[k], b[k], 2, 100000)
Curves(l) == IF Len(l.vs) = Len(l.xs) THEN [k \in 1..(Len(l.xs) - 1) |-> <<l.xs[k + 1] * One, l.ys[k + 1], l.vs[k + 1]>>] ELSE [k \in 1..(Len(l.xs) - 1) |-> <<l.xs[k + 1] * One, l.ys[k + 1]>>]
NParams(i, h, n) == (i + 1) * h + (h + 1) * n
(*---- windows --------------------------------------------------------------*)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Windows(seqs, w) == Cat([s \in DOMAIN seqs |-> [k \in 1..(Len(seqs[s]) \div w) |->
                       [x |-> Cat([j \in 1..w |-> seqs[s][(k - 1) * w + j].x]), t |-> seqs[s][k * w].t]]])
(*---- normalization: per feature, to bounds or to mean 0 and deviation 1 ---*)
Col(data, i) == [k \in DOMAIN data |-> data[k][i]]
MinSeq(q) == -MaxSeq([k \in DOMAIN q |-> -q[k]])
(* par is what was calculated: lowest and highest, or mean and deviation *)
GoodPar(o, data, i, a, b) ==
  LET c == Col(data, i)
      n == Len(c)
  IN IF o.meanstd THEN Near(n * a, SumSeq(c), 2 * n, 0) /\ b >= 0 /\ Near(n * Mul(b, b), SumSeq([k \in DOMAIN c |-> Mul(c[k] - a, c[k] - a)]), 24 * n, 256)
     ELSE Near(a, MinSeq(c), 1, 0) /\ Near(b, MaxSeq(c), 1, 0)
(* y is x normalized by feature i's parameters *)
Normal(o, i, x, y) ==
  LET a == o.p1[i]
      b == o.p2[i]
  IN IF o.meanstd THEN (IF b = 0 THEN Near(y, x - a, 2, 0) ELSE Near(Mul(y, b), x - a, 6, 200))
     ELSE IF a = b THEN Near(y, (x - a) + o.lo, 2, 0)
     ELSE Near(Mul(y - o.lo, b - a), Mul(x - a, o.hi - o.lo), 8, 200)
NormalRow(o, x, y) == Len(y) = Len(x) /\ \A i \in DOMAIN x : Normal(o, i, x[i], y[i])
(*---- pickled dictionaries -------------------------------------------------*)
(* files: sequence of [name, dict]; dict: sequence of [key, list] in order of first use *)
Lookup(q, n) == LET H == {k \in DOMAIN q : q[k].n = n} IN IF H = {} THEN 0 ELSE CHOOSE k \in H : TRUE
Put(q, n, v) == LET k == Lookup(q, n) IN IF k = 0 THEN Append(q, [n |-> n, v |-> v]) ELSE [q EXCEPT ![k].v = v]
Get(q, n) == LET k == Lookup(q, n) IN IF k = 0 THEN <<>> ELSE q[k].v
AddTo(fs, n, key, d) == LET dict == Get(fs, n) IN Put(fs, n, Put(dict, key, Append(Get(dict, key), d)))
AsSet(dict) == {dict[k] : k \in DOMAIN dict}
(*---- data files -----------------------------------------------------------*)
(* features: pairs of index and value, ascending *)
Width(s) == LET n == MaxSeq(<<0>> \o [k \in DOMAIN s |-> IF s[k].f = <<>> THEN 0 ELSE s[k].f[Len(s[k].f)][1]]) IN n
Dense(f, n) == [i \in 1..n |-> LET H == {k \in DOMAIN f : f[k][1] = i} IN IF H = {} THEN 0 ELSE f[CHOOSE k \in H : TRUE][2]]
Labels(s) == {s[k].y : k \in DOMAIN s}
Hist(s) == {<<y, Cardinality({k \in DOMAIN s : s[k].y = y})>> : y \in Labels(s)}
Hot(q) == LET H == {k \in DOMAIN q : q[k] # 0} IN (CHOOSE k \in H : \A j \in H : k <= j) - 1
(*---- the system -----------------------------------------------------------*)
XInit0(c) == CASE c.kind = "nn" -> [kind |-> "nn", reg |-> c.reg, inc |-> c.inc, max |-> c.max, ds |-> c.ds, tds |-> c.tds, vds |-> c.vds, l |-> L0, n |-> 0, size |-> 0, ops |-> {}]
               [] c.kind = "norm" -> [kind |-> "norm", meanstd |-> c.meanstd, p1 |-> <<>>, p2 |-> <<>>, lo |-> 0, hi |-> 0, n |-> 0, size |-> 0, ops |-> {}]
               [] OTHER -> [kind |-> c.kind, fs |-> <<>>, n |-> 0, size |-> 0, ops |-> {}]
R(s, bad) == [s |-> s, bad |-> bad]
(* which of the allowed runs was observed (the shortest one if none) *)
Observed(o, op) == LET S == Runs(o, op.script, op.conv, L0)
                       H == {l \in S : l.xs = op.res.xs}
                   IN IF H # {} THEN CHOOSE l \in H : TRUE ELSE CHOOSE l \in S : \A m \in S : l.k <= m.k
XDo(o, op) ==
  LET r == op.res IN
  IF r.err # "" THEN R(o, {"raised " \o r.err})
  ELSE CASE op.op = "run" ->
              LET l == Observed(o, op)
              IN R([o EXCEPT !.l = l], If(r.xs = l.xs, "epochs trained") \cup If(r.blocks = [k \in 1..l.k |-> o.inc], "epochs per block") \cup If(Same(r.ys, l.ys), "training errors") \cup
                                       If(Same(r.vs, l.vs), "test errors") \cup If(r.p = Final(o, l), "final weights"))
         [] op.op = "curve" -> R(o, If(Len(r.rows) = Len(Curves(o.l)) /\ \A k \in DOMAIN r.rows : Same(r.rows[k], Curves(o.l)[k]), "saved curve"))
         [] op.op = "setup" -> R(o, If(r.dims = <<op.i, op.h, op.n>> /\ r.params = NParams(op.i, op.h, op.n), "dimensions of the network") \cup If(r.same, "saved network") \cup If(r.ds, "trains on the data set") \cup
                                   If(r.tgt = (IF o.reg THEN <<>> ELSE [k \in DOMAIN op.cls |-> [j \in 1..op.n |-> IF j = op.cls[k] + 1 THEN 1 ELSE 0]]), "targets"))
         [] op.op = "win" -> R(o, If(r.w = Windows(op.seqs, op.w), "windows") \cup If(r.same, "the sequences are left alone"))
         [] op.op = "calc" -> R([o EXCEPT !.p1 = r.p1, !.p2 = r.p2, !.lo = op.lo, !.hi = op.hi],
                                If(Len(r.p1) = Len(op.data[1]) /\ Len(r.p2) = Len(op.data[1]) /\ \A i \in DOMAIN r.p1 : GoodPar(o, op.data, i, r.p1[i], r.p2[i]), "parameters"))
         [] op.op = "apply" -> R(o, If(Len(r.y) = Len(op.data) /\ \A k \in DOMAIN op.data : NormalRow(o, op.data[k], r.y[k]), "normalized data set"))
         [] op.op = "pattern" -> R(o, If(NormalRow(o, op.x, r.y), "normalized pattern"))
         [] op.op = "reload" -> R(o, If(NearV(r.p1, o.p1, 2, 10000) /\ NearV(r.p2, o.p2, 2, 10000) /\ r.lo = o.lo /\ r.hi = o.hi, "reloaded parameters"))
         [] op.op = "add" -> R([o EXCEPT !.fs = AddTo(o.fs, op.n, op.k, op.d)], {})
         [] op.op = "dump" -> R([o EXCEPT !.fs = Put(o.fs, op.n, op.v)], If(r.ok, "reported as written"))
         [] op.op = "read" -> R(o, If(AsSet(r.v) = AsSet(Get(o.fs, op.n)) /\ Len(r.v) = Len(Get(o.fs, op.n)), "dictionary"))
         [] op.op = "list" -> R(o, If({r.v[k] : k \in DOMAIN r.v} = {o.fs[k].n : k \in DOMAIN o.fs} /\ Len(r.v) = Len(o.fs), "list of files"))
         [] op.op = "svm" -> R(o, LET n == Width(op.s) IN
                                  If(r.x = [k \in DOMAIN op.s |-> Dense(op.s[k].f, n)], "features") \cup If(r.y = [k \in DOMAIN op.s |-> op.s[k].y], "targets") \cup If(r.n = Len(op.s), "number of samples") \cup
                                  If(r.c = Cardinality(Labels(op.s)), "number of classes") \cup If({r.h[k] : k \in DOMAIN r.h} = Hist(op.s), "class histogram"))
         [] op.op = "raw" -> R(o, If(r.x = op.x, "features") \cup If(r.y = [k \in DOMAIN op.t |-> Hot(op.t[k])], "targets") \cup If(r.n = Len(op.x), "number of samples") \cup If(r.c = Len(op.t[1]), "number of classes"))
         [] op.op = "mnist" -> R(o, If(r.train = op.train, "training digits") \cup If(r.test = op.test, "test digits"))
         [] OTHER -> R(o, {"unknown operation"})
(*---- exploration ----------------------------------------------------------*)
XOps(o) == IF o.n >= o.size THEN {} ELSE {op \in o.ops : op.op = "curve" => o.l.k > 0}
XNext0(o0, op) ==
  LET o == [o0 EXCEPT !.n = @ + 1] IN
  CASE op.op = "run" -> [o EXCEPT !.l = LET S == Runs(o, op.script, op.conv, L0) IN CHOOSE l \in S : \A m \in S : l.k >= m.k]
    [] op.op = "add" -> [o EXCEPT !.fs = AddTo(o.fs, op.n, op.k, op.d)]
    [] op.op = "dump" -> [o EXCEPT !.fs = Put(o.fs, op.n, op.v)]
    [] OTHER -> o
=============================================================================
