------------------------------ MODULE Validate ------------------------------
(* Early stopping (trainUntilConvergence), cross-validation and the validation measures.
   Early stopping is a transition system: state k epochs trained, V validation errors (V[1] before training),
   W the weight after every epoch (W[1] initial), T training errors, best the epoch (0 = none yet) whose weight is kept.
   cfg: maxE (0 = no limit), cont (continueEpochs), all measures are integers (the harness uses dyadic values). *)
EXTENDS Fixed, FiniteSets
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Range(s) == {s[k] : k \in DOMAIN s}
VInit(c) == [c |-> c, k |-> 0, V |-> <<c.v0>>, T |-> <<>>, best |-> 0, done |-> FALSE]
Old(V, n) == {V[q] : q \in (Len(V) - 2 * n + 1)..(Len(V) - n)}
New(V, n) == {V[q] : q \in (Len(V) - n + 1)..Len(V)}
Stop(s) == \/ s.c.maxE > 0 /\ s.k >= s.c.maxE
           \/ Len(s.V) >= 2 * s.c.cont /\ (SetMin(New(s.V, s.c.cont)) > SetMax(Old(s.V, s.c.cont)) \/ Cardinality(New(s.V, s.c.cont)) = 1)
(* one epoch ends with validation error v and training error t *)
Epoch(s, v, t) == LET u == [s EXCEPT !.k = @ + 1, !.V = Append(@, v), !.T = Append(@, t),
                                     !.best = IF s.k = 0 \/ v < s.V[s.best + 1] THEN s.k + 1 ELSE @]
                  IN [u EXCEPT !.done = Stop(u)]
RECURSIVE Run(_, _, _)
Run(s, v, t) == IF s.done \/ v = <<>> THEN s ELSE Run(Epoch(s, Head(v), Head(t)), Tail(v), Tail(t))
Prefix(a, b) == Len(a) <= Len(b) /\ \A q \in DOMAIN a : a[q] = b[q]
(* ------------------------------------------------------------ exploration *)
VOps(s) == IF s.done THEN {} ELSE {[op |-> "epoch", v |-> v] : v \in 1..s.c.vals}
VNext0(s, op) == Epoch(s, op.v, op.v)
BestInv(s) == /\ s.k > 0 => (s.best \in 1..s.k /\ \A q \in 2..(s.k + 1) : s.V[s.best + 1] <= s.V[q])
              /\ s.c.maxE > 0 => s.k <= s.c.maxE
              /\ (s.done /\ (s.c.maxE = 0 \/ s.k < s.c.maxE)) => (Len(s.V) >= 2 * s.c.cont)
(* a constant validation error over both windows always stops, a new minimum of everything never does *)
StopInv(s) == LET n == Len(s.V) IN
  /\ (n >= 2 * s.c.cont /\ \A q \in (n - 2 * s.c.cont + 1)..n : s.V[q] = s.V[n]) => s.done
  /\ (s.done /\ (s.c.maxE = 0 \/ s.k < s.c.maxE) /\ s.c.cont > 1) => ~(\A q \in 1..(n - 1) : s.V[n] < s.V[q])
(* ------------------------------------------------------------ trace steps *)
If(b, x) == IF b THEN {} ELSE {x}
Disjoint(a, b) == a \cap b = {}
Seqs(lens) == LET RECURSIVE F(_, _)
                  F(k, at) == IF k > Len(lens) THEN <<>> ELSE <<[from |-> at + 1, to |-> at + lens[k]]>> \o F(k + 1, at + lens[k])
              IN F(1, 0)
SqErr(o, t, w) == SumSeq([q \in DOMAIN o |-> w[q] * (o[q] - t[q]) * (o[q] - t[q])])
Hits(o, t) == Cardinality({q \in DOMAIN o : o[q] = t[q]})
(* response of the validated module: y(t) = a x(t) + r y(t-1) per output, state cleared at every sequence start *)
RECURSIVE Resp(_, _, _, _, _, _)
Resp(a, r, x, starts, k, y) ==
  IF k > Len(x) THEN y
  ELSE Resp(a, r, x, starts, k + 1,
            Append(y, [j \in DOMAIN x[k] |-> a * x[k][j] + (IF r = 0 \/ k \in starts THEN 0 ELSE r * y[k - 1][j])]))
Flat(m) == LET RECURSIVE F(_)
               F(k) == IF k > Len(m) THEN <<>> ELSE m[k] \o F(k + 1) IN F(1)
Starts(lens) == LET q == Seqs(lens) IN {q[k].from : k \in {k \in DOMAIN q : lens[k] > 0}}
Ones(n) == [k \in 1..n |-> 1]
MaxOf(v) == SetMax(Range(v))
NearFrac(ret, num, den) == Abs(ret * den - num * 4096) <= den      \* ret/4096 = num/den up to rounding
ok(s) == [s |-> s, bad |-> {}]
VDo(s, b) ==
  IF b.err # "" THEN [s |-> s, bad |-> {"raised " \o b.err}] ELSE
  [s |-> s, bad |->
   CASE b.op = "tuc" ->
          LET f == Run(VInit(s.c), b.v, b.t)
              n == Len(b.trained)
          IN If(b.out = (~f.done), "stops exactly when it has to")
             \cup If(n = f.k + (IF b.out THEN 1 ELSE 0), "number of epochs")
             \cup If(b.out \/ b.final = b.w[f.best], "weights of the lowest validation error")
             \cup If(b.out \/ (Prefix(b.rt, f.T) /\ Len(b.rt) \in {f.best - 1, f.best}), "training error history")
             \cup If(b.out \/ (Prefix(b.rv, f.V) /\ Len(b.rv) \in {f.best, f.best + 1}), "validation error history")
             \cup If(\A q \in DOMAIN b.trained : Len(b.trained[q]) = Len(b.trained[1]) /\ Range(b.trained[q]) = Range(b.trained[1]), "training part")
             \cup If(Cardinality(Range(b.trained[1])) = Len(b.trained[1]) /\ Disjoint(Range(b.trained[1]), Range(b.valid)), "training part disjoint from validation part")
             \cup If(Range(b.trained[1]) \cup Range(b.valid) = 1..b.n, "parts cover the dataset")
             \cup If(b.given = <<>> \/ Range(b.given) = Range(b.valid), "given validation data")
             \cup If(b.given # <<>> \/ Abs(16 * Len(b.trained[1]) - b.n * (16 - b.prop)) < 16, "proportion of the parts")
             \cup If(b.validated, "validation error uses the whole validation part")
             \cup If(b.out \/ b.ds, "dataset of the trainer afterwards")
     [] b.op = "small" -> If(b.refused, "too small datasets are refused")
     [] b.op = "cv" ->
          LET F == DOMAIN b.test IN
          If(Len(b.test) = b.folds /\ Len(b.train) = b.folds /\ Len(b.epochs) = b.folds, "number of folds")
          \cup If(\A q \in F : Cardinality(Range(b.test[q])) = Len(b.test[q]) /\ Cardinality(Range(b.train[q])) = Len(b.train[q]), "samples used once")
          \cup If(\A p, q \in F : p # q => Disjoint(Range(b.test[p]), Range(b.test[q])), "folds are disjoint")
          \cup If(UNION {Range(b.test[q]) : q \in F} = 1..b.n, "folds cover the dataset")
          \cup If(\A q \in F \cap DOMAIN b.train : Range(b.train[q]) = (1..b.n) \ Range(b.test[q]), "trained on the complement")
          \cup If(\A p, q \in F : Abs(Len(b.test[p]) - Len(b.test[q])) <= 1, "folds of equal size")
          \cup If(\A q \in DOMAIN b.start : b.start[q] = b.w0, "every fold starts from the model as given")
          \cup If(\A q \in DOMAIN b.epochs : b.epochs[q] = b.want, "number of epochs")
          \cup If(\A q \in DOMAIN b.seen : b.seen[q] = b.w0 + b.want, "validates the trained copy")
          \cup If(b.after = b.w0, "the given model is left alone")
          \cup If(b.targets, "targets belong to their inputs")
          \cup If(NearFrac(b.ret, SumSeq(b.perf), b.folds), "mean performance")
     [] b.op = "class" -> If(NearFrac(b.ret, Hits(b.o, b.t), Len(b.o)), "classification performance")
     [] b.op = "ess" -> If(b.ret = SqErr(b.o, b.t, Ones(Len(b.o))), "explained sum of squares")
     [] b.op = "mse" -> LET w == IF b.w = <<>> THEN Ones(Len(b.o)) ELSE b.w IN If(NearFrac(b.ret, SqErr(b.o, b.t, w), SumSeq(w)), "mean squared error")
     [] b.op = "onehot" -> If(Len(b.o) = Len(b.m) /\ \A q \in DOMAIN b.o : b.m[q][b.o[q] + 1] = MaxOf(b.m[q]), "class of a row")
     [] b.op = "module" ->   \* ModuleValidator on a dataset of sequences (lens) or of single samples (lens = <<>>)
          LET st == IF b.lens = <<>> THEN {1} ELSE Starts(b.lens)
              y == Resp(b.a, b.r, b.x, st, 1, <<>>)
              fy == Flat(y)
              ft == Flat(b.t)
              w == IF b.w = <<>> THEN Ones(Len(fy)) ELSE Flat(b.w)
          IN If(b.y = y, "outputs of the module")
             \cup If(NearFrac(b.mse, SqErr(fy, ft, w), SumSeq(w)), "mean squared error of the module")
             \cup If(b.perf = -1 \/ NearFrac(b.perf, Hits(fy, ft), Len(fy)), "classification performance of the module")
     [] b.op = "seqs" ->
          LET q == Seqs(b.lens)
              n == SumSeq(b.lens)
          IN If(b.starts = [k \in DOMAIN q |-> q[k].from - 1], "sequence starts")
             \cup If(b.ends = [k \in DOMAIN q |-> q[k].to - 1], "sequence ends")
             \cup If(b.imp = [k \in 1..n |-> IF \E z \in DOMAIN q : q[z].to = k THEN 1 ELSE 0], "importance of sequence ends")
     [] b.op = "testseq" ->
          LET q == Seqs(b.lens)
              y == Resp(b.a, b.r, b.x, Starts(b.lens), 1, <<>>)
              sum(k) == [j \in DOMAIN y[1] |-> SumSeq([z \in 1..(q[k].to - q[k].from + 1) |-> y[q[k].from + z - 1][j]])]
              good(k) == LET v == sum(k)
                             t == b.t[q[k].to]
                         IN \E j \in DOMAIN v : v[j] = MaxOf(v) /\ t[j] = MaxOf(t)
          IN If(NearFrac(b.ret, Cardinality({k \in DOMAIN q : good(k)}), Len(b.lens)), "classification of sequences")
     [] b.op = "epochs" -> If(b.count = b.want /\ b.ds, "number of epochs on the given dataset")]
=============================================================================
