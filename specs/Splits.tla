------------------------------- MODULE Splits -------------------------------
(* Splitting, batching and class conversion of datasets.
   d: kind, inp (rows), imp (importance rows), lab (true label rows / targets),
      many (targets are in one-of-many form), lo/hi its bounds, ncl (0: not yet known), starts *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(q) == {q[k] : k \in DOMAIN q}
Classy(d) == d.kind \in {"ClassificationDataSet", "SequenceClassificationDataSet"}
IsSeq(d) == d.kind \in {"SequentialDataSet", "ImportanceDataSet", "SequenceClassificationDataSet"}
Init0(cfg) == [kind |-> cfg.kind, di |-> cfg.di, dt |-> cfg.dt, inp |-> <<>>, lab |-> <<>>, imp |-> <<>>, many |-> FALSE,
               lo |-> 0, hi |-> 1, ncl |-> cfg.ncl, starts |-> <<0>>, known |-> TRUE]
N(d) == Len(d.inp)
Count(q, x) == Cardinality({k \in DOMAIN q : q[k] = x})
BagEq(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Count(a, a[k]) = Count(b, a[k])
Labels(d) == {d.lab[k][1] : k \in DOMAIN d.lab}
Known(d) == IF d.ncl <= 0 THEN [d EXCEPT !.ncl = Cardinality(Labels(d))] ELSE d
Hist(d) == [c \in 1..d.ncl |-> Cardinality({k \in DOMAIN d.lab : d.lab[k][1] = c - 1})]
Code(d, k) == IF d.many THEN [c \in 1..d.ncl |-> IF d.lab[k][1] = c - 1 THEN d.hi ELSE d.lo] ELSE d.lab[k]
Targets(d) == [k \in DOMAIN d.lab |-> Code(d, k)]
NSeq(d) == Len(d.starts)
EndOf(d, i) == IF i = NSeq(d) THEN N(d) ELSE d.starts[i + 1]
SeqOf(d, q, i) == SubSeq(q, d.starts[i] + 1, EndOf(d, i))
SeqClass(d, i) == d.lab[EndOf(d, i)][1]

Step(d, op) ==
  CASE op.op = "add" -> [d EXCEPT !.inp = Append(@, op.i), !.lab = Append(@, op.t), !.imp = Append(@, op.w), !.known = FALSE]
    [] op.op = "newseq" -> IF d.starts[NSeq(d)] = N(d) THEN d ELSE [d EXCEPT !.starts = Append(@, N(d))]
    [] op.op \in {"stats", "byclass", "strat", "cast"} -> [Known(d) EXCEPT !.known = TRUE]
    [] op.op = "many" -> IF d.many THEN d ELSE [Known(d) EXCEPT !.many = TRUE, !.lo = op.lo, !.hi = op.hi, !.known = TRUE]
    [] op.op = "nb" -> [d EXCEPT !.many = FALSE, !.known = TRUE]
    [] op.op = "clear" -> [d EXCEPT !.inp = <<>>, !.lab = <<>>, !.imp = <<>>, !.starts = <<0>>, !.known = TRUE, !.many = FALSE]
    [] OTHER -> d
Next0(d, op) == Step(d, op)
Can(d) == IF ~Classy(d) THEN TRUE ELSE ~d.many
Ops(d) == (IF Can(d) /\ N(d) < 7
           THEN {[op |-> "add", i |-> [j \in 1..d.di |-> 10 * N(d) + j + x], w |-> [j \in 1..d.dt |-> j + x],
                  t |-> [j \in 1..d.dt |-> IF Classy(d) THEN x ELSE x + 5 * j]] : x \in 0..2} ELSE {})
          \cup (IF IsSeq(d) THEN {[op |-> "newseq"]} ELSE {})
          \cup (IF Classy(d) /\ N(d) > 0 /\ (\E m \in 1..3 : Labels(d) = 0..(m - 1) /\ (d.ncl <= 0 \/ d.ncl >= m))
                THEN {[op |-> "stats"], [op |-> "byclass", c |-> 0], [op |-> "byclass", c |-> 1]}
                     \cup (IF ~d.many THEN {[op |-> "many", lo |-> l, hi |-> 1] : l \in {0, -1}} ELSE {[op |-> "nb"]})
                ELSE {})
          \cup (IF Can(d) THEN {[op |-> "clear"]} ELSE {})
          \cup {[op |-> "split", p |-> p] : p \in {0, 4, 8, 11, 16}}
          \cup (IF N(d) > 0 THEN {[op |-> "batches", l |-> "input", n |-> n, perm |-> <<>>] : n \in 1..3}
                                 \cup {[op |-> "rbatches", l |-> "target", n |-> n] : n \in 1..3} ELSE {})
-----------------------------------------------------------------------------
(* properties of the specification *)
LenInv(d) == Len(d.inp) = Len(d.lab) /\ Len(d.inp) = Len(d.imp)
OneInv(d) == d.many => \A k \in DOMAIN d.lab : Count(Code(d, k), d.hi) = 1 /\ Count(Code(d, k), d.lo) = d.ncl - 1
HistInv(d) == (Classy(d) /\ d.ncl > 0 /\ \A x \in Labels(d) : x < d.ncl) =>
                 LET h == Hist(d)
                     RECURSIVE Sum(_)
                     Sum(k) == IF k = 0 THEN 0 ELSE h[k] + Sum(k - 1)
                 IN Sum(d.ncl) = N(d)
-----------------------------------------------------------------------------
(* judging *)
Zip(d) == [k \in DOMAIN d.inp |-> <<d.inp[k], Targets(d)[k], IF d.kind = "ImportanceDataSet" THEN d.imp[k] ELSE <<>>>>]
SeqZip(d) == [i \in 1..NSeq(d) |-> SeqOf(d, Zip(d), i)]
NonEmpty(q) == SelectSeq(q, LAMBDA x : x # <<>>)
NBatch(d, n) == (N(d) + n - 1) \div n
BatchOf(q, n, b) == SubSeq(q, (b - 1) * n + 1, IF b * n < Len(q) THEN b * n ELSE Len(q))
FieldRows(d, l) == CASE l = "input" -> d.inp [] l = "target" -> Targets(d) [] l = "importance" -> d.imp
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Sel(d, c, inn) == SelectSeq([k \in DOMAIN d.inp |-> k], LAMBDA k : (d.lab[k][1] = c) = inn)
Dense(op) == [k \in DOMAIN op.rows |-> [j \in 1..op.nf |->
                IF \E m \in DOMAIN op.rows[k].f : op.rows[k].f[m][1] = j
                THEN op.rows[k].f[CHOOSE m \in DOMAIN op.rows[k].f : op.rows[k].f[m][1] = j][2] ELSE 0]]
Query(d, e) ==
  LET r == e.ret IN
  CASE e.op = "split" ->
         IF IsSeq(d)
         THEN (IF ~BagEq(NonEmpty(r.l \o r.r), NonEmpty(SeqZip(d))) THEN {"split loses or invents sequences"} ELSE {})
              \cup (IF Len(NonEmpty(r.l)) \notin {(NSeq(d) * e.p) \div 16} \cup
                         (IF Len(NonEmpty(SeqZip(d))) < NSeq(d) THEN {(NSeq(d) * e.p) \div 16 - 1} ELSE {})
                    THEN {"split size"} ELSE {})
         ELSE (IF ~BagEq(r.l \o r.r, [k \in DOMAIN d.inp |-> <<d.inp[k], Targets(d)[k], <<>>>>]) THEN {"split loses or invents samples"} ELSE {})
              \cup (IF Len(r.l) # (N(d) * e.p) \div 16 THEN {"split size"} ELSE {})
    [] e.op = "byclass" ->
         UNION {LET idx == Sel(d, e.c, side = "l")
                    p == IF side = "l" THEN r.l ELSE r.r
                IN (IF p.inp # [k \in DOMAIN idx |-> d.inp[idx[k]]] \/ p.tgt # [k \in DOMAIN idx |-> Targets(d)[idx[k]]] THEN {"splitByClass samples"} ELSE {})
                   \cup (IF p.cls # [k \in DOMAIN idx |-> d.lab[idx[k]]] THEN {"splitByClass class field"} ELSE {})
                   \cup (IF p.kind # d.kind THEN {"splitByClass type"} ELSE {}) : side \in {"l", "r"}}
    [] e.op = "strat" ->
         LET src == [i \in 1..NSeq(d) |-> <<SeqOf(d, d.inp, i), SeqClass(d, i)>>]
             nc(c) == Cardinality({i \in 1..NSeq(d) : SeqClass(d, i) = c})
             size(q, c) == Cardinality({i \in DOMAIN q : q[i][2] = c})
         IN (IF ~BagEq(r.trn \o r.tst \o r.val, src) THEN {"stratified split loses or invents sequences"} ELSE {})
            \cup (IF \E c \in 0..(Known(d).ncl - 1) : size(r.tst, c) # (nc(c) * e.tf) \div 16 \/ size(r.val, c) # (nc(c) * e.vf) \div 16
                  THEN {"stratified split proportions"} ELSE {})
    [] e.op = "batches" ->
         LET nb == NBatch(d, e.n)
             perm == IF e.perm = <<>> THEN [k \in 1..nb |-> k - 1] ELSE e.perm
         IN IF r.b # [k \in DOMAIN perm |-> BatchOf(FieldRows(d, e.l), e.n, perm[k] + 1)] THEN {"batches"} ELSE {}
    [] e.op = "rbatches" ->
         (IF ~BagEq(Flat(r.b), FieldRows(d, e.l)) THEN {"random batches lose or repeat rows"} ELSE {})
         \cup (IF Len(r.b) # NBatch(d, e.n) \/ Cardinality({k \in DOMAIN r.b : Len(r.b[k]) # e.n}) > 1 THEN {"random batch sizes"} ELSE {})
    [] e.op = "stats" -> IF r.hist # Hist(Known(d)) THEN {"class histogram"} ELSE {}
    [] e.op = "cast" -> (IF r.inp # d.inp \/ r.tgt # [k \in DOMAIN d.lab |-> <<e.values[d.lab[k][1] + 1]>>] THEN {"castToRegression"} ELSE {})
    [] e.op = "seqclass" -> (IF r.all # [i \in 1..NSeq(d) |-> SeqClass(d, i)] \/ r.each # r.all THEN {"getSequenceClass"} ELSE {})
    [] e.op = "plus" -> (IF r.inp # d.inp \o e.inp \/ r.tgt # d.lab \o e.tgt \/ r.cls # d.lab \o e.tgt THEN {"sum of datasets"} ELSE {})
    [] e.op = "libsvm" -> (IF r.inp # Dense(e) \/ r.tgt # [k \in DOMAIN e.rows |-> <<e.rows[k].c>>] THEN {"libsvm rows"} ELSE {})
    [] OTHER -> {}
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
StateBad(d, o) ==
  (IF o.inp # d.inp THEN {"inputs"} ELSE {})
  \cup (IF o.tgt # Targets(d) THEN {"targets"} ELSE {})
  \cup (IF d.kind = "ImportanceDataSet" /\ o.imp # d.imp THEN {"importances"} ELSE {})
  \cup (IF Classy(d) THEN
         (IF ~IsPrefix(o.cls, d.lab) \/ (d.known /\ d.lab # <<>> /\ o.cls # d.lab) THEN {"class field"} ELSE {})
         \cup (IF o.ncl # d.ncl THEN {"number of classes"} ELSE {}) ELSE {})
  \cup (IF IsSeq(d) /\ o.starts # d.starts THEN {"sequences"} ELSE {})
Do(d, e) == LET t == Step(d, e)
            IN [s |-> t, bad |-> IF e.err # "" THEN {"raised " \o e.err} ELSE Query(d, e) \cup StateBad(t, e.obs)]
=============================================================================
