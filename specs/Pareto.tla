------------------------------- MODULE Pareto -------------------------------
(* Multi-objective selection: non-dominated fronts, sorting, crowding distances, NSGA-II selection (plain and constrained),
   and the generations of the multi-objective GA.
   A fitness table is a sequence of integer vectors f (smaller is better); items are their indices; feas / viol describe the
   feasibility of the constrained variant.  Dominance: with allowed equality an item is dominated when another one is smaller in
   every objective, otherwise when another one is not larger in any (of equal items, one stays).
   Distances are in 4096ths of the range of an objective; INF marks boundary items. *)
EXTENDS Fixed, FiniteSets
INF == 1073741824
If(b, x) == IF b THEN {} ELSE {x}
Below(f, eq, i, j) == IF eq THEN \A k \in DOMAIN f[i] : f[i][k] < f[j][k] ELSE \A k \in DOMAIN f[i] : f[i][k] <= f[j][k]
Dominates(f, eq, i, j) == i # j /\ Below(f, eq, i, j)
Dominated(f, eq, X, j) == \E i \in X : Dominates(f, eq, i, j) /\ (eq \/ f[i] # f[j])
(* the fronts: exact up to the choice of one representative of equal items when equality is not allowed *)
Optimal(f, eq, X) == {j \in X : ~Dominated(f, eq, X, j)}
IsFront(f, eq, X, F) ==
  LET o == Optimal(f, eq, X) IN
  IF eq THEN F = o
  ELSE F \subseteq o /\ \A j \in o : Cardinality({i \in F : f[i] = f[j]}) = 1
(* constrained: feasible items beat infeasible ones; of infeasible items one with the least violation remains *)
IsConstFront(f, eq, feas, viol, X, F) ==
  LET ok == {j \in X : feas[j]} IN
  IF ok # {} THEN IsFront(f, eq, ok, F) ELSE \E j \in X : F = {j} /\ \A i \in X : Abs(viol[j]) <= Abs(viol[i])
FrontOk(b, X, F) == IF b.const THEN IsConstFront(b.f, b.eq, b.feas, b.viol, X, F) ELSE IsFront(b.f, b.eq, X, F)
RECURSIVE SortOk(_, _, _)
SortOk(b, X, fs) == IF fs = <<>> THEN X = {} ELSE X # {} /\ LET F == {fs[1][k] : k \in DOMAIN fs[1]} IN FrontOk(b, X, F) /\ SortOk(b, X \ F, Tail(fs))
(* ------------------------------------------------------------- crowding *)
(* the possible contributions of objective k to the distance of item x in the front X (several when items tie) *)
Contrib(f, X, k, x) ==
  LET v == f[x][k]
      all == {f[i][k] : i \in X}
      lo == CHOOSE a \in all : \A z \in all : a <= z
      hi == CHOOSE a \in all : \A z \in all : a >= z
      m == Cardinality({i \in X : f[i][k] = v})
      up == CHOOSE a \in (all \cup {hi + 1}) : a > v /\ \A z \in (all \cup {hi + 1}) : z > v => a <= z
      dn == CHOOSE a \in (all \cup {lo - 1}) : a < v /\ \A z \in (all \cup {lo - 1}) : z < v => a >= z
      S(g) == IF hi = lo THEN 0 ELSE (g * One) \div (hi - lo)
  IN IF m = 1 THEN (IF v = lo \/ v = hi THEN {INF} ELSE {S(up - dn)})
     ELSE (IF v = lo THEN {INF} ELSE {S(v - dn)}) \cup (IF v = hi THEN {INF} ELSE {S(up - v)}) \cup (IF m > 2 THEN {0} ELSE {}) \cup (IF hi = lo /\ m = 2 THEN {INF} ELSE {})
RECURSIVE Sums(_, _, _, _)
Sums(f, X, k, x) == IF k = 0 THEN {0} ELSE {IF a = INF \/ c = INF THEN INF ELSE a + c : a \in Sums(f, X, k - 1, x), c \in Contrib(f, X, k, x)}
Dims(f) == Len(f[1])
CrowdOk(f, X, d) == /\ \A x \in X : \E t \in Sums(f, X, Dims(f), x) : (t = INF /\ d[x] = INF) \/ (t # INF /\ Abs(t - d[x]) <= 2 * Dims(f))
                    /\ \A k \in 1..Dims(f) : \A y \in X : (\A z \in X : f[y][k] <= f[z][k]) => \E x \in X : f[x][k] = f[y][k] /\ d[x] = INF
                    /\ \A k \in 1..Dims(f) : \A y \in X : (\A z \in X : f[y][k] >= f[z][k]) => \E x \in X : f[x][k] = f[y][k] /\ d[x] = INF
(* the chosen ones are no more crowded than the others, for some resolution of the ties *)
Most(f, X, x) == CHOOSE m \in Sums(f, X, Dims(f), x) : \A t \in Sums(f, X, Dims(f), x) : t <= m
Least(f, X, x) == CHOOSE m \in Sums(f, X, Dims(f), x) : \A t \in Sums(f, X, Dims(f), x) : t >= m
SpacedOk(f, X, C) == LET mo == [x \in C |-> Most(f, X, x)] le == [x \in X \ C |-> Least(f, X, x)]
                     IN \A x \in C : \A y \in X \ C : mo[x] + 2 * Dims(f) >= le[y]
(* S are the n survivors of X: whole fronts, then the least crowded ones of the first front that does not fit *)
Rep(f, o, S) == {LET k == {j \in o : f[j] = f[i]} IN IF k \cap S = {} THEN CHOOSE j \in k : TRUE ELSE CHOOSE j \in k \cap S : TRUE : i \in o}
RECURSIVE SelectOk(_, _, _, _)
SelectOk(b, X, n, S) ==
  LET good == IF b.const THEN {j \in X : b.feas[j]} ELSE X IN
  IF n = 0 \/ X = {} THEN S = {}
  ELSE IF good = {}    \* infeasible ones follow one at a time
  THEN Cardinality(S) = Min2(n, Cardinality(X)) /\ \A x \in S : \A y \in X \ S : Abs(b.viol[x]) <= Abs(b.viol[y])
  ELSE LET o == Optimal(b.f, b.eq, good)
           F == IF b.eq THEN o ELSE TLCEval(Rep(b.f, o, S))
       IN IF Cardinality(F) <= n THEN F \subseteq S /\ SelectOk(b, X \ F, n - Cardinality(F), S \ F)
          ELSE S \subseteq F /\ Cardinality(S) = n /\ SpacedOk(b.f, F, S)
(* ----------------------------------------------------------- steps on given fitness tables, and generations of the GA *)
Ran(q) == {q[k] : k \in DOMAIN q}
Cross(p, q, x) == \E c \in 0..Len(x) : x = [k \in DOMAIN x |-> IF k <= c THEN p[k] ELSE q[k]]
(* one generation: pop the individuals (coordinates), f their fitness; best the reported set, bestf their fitness; next the new population *)
Objective(c, x) == [k \in DOMAIN c.mod |-> LET v == SumSeq([z \in DOMAIN x |-> c.a[k][z] * x[z]]) IN (c.sign[k] * ((v % c.mod[k]) - c.off[k]))]
GInit0(c) == [c |-> c, k |-> 0, items |-> {}, front |-> {}, fs |-> <<>>]
PGen(s, b) ==
  LET c == s.c
      pop == Ran(b.pop)
      t == [x \in pop |-> Objective(c, x)]
      cand == IF c.elitism THEN {<<x, t[x]>> : x \in pop} ELSE s.front \cup {<<x, t[x]>> : x \in pop}
      best == {<<b.best[k], b.bestf[k]>> : k \in DOMAIN b.best}
      low(p, q) == IF c.eq THEN \A k \in DOMAIN p[2] : p[2][k] < q[2][k] ELSE p # q /\ \A k \in DOMAIN p[2] : p[2][k] <= q[2][k]
      opt == {q \in cand : ~\E p \in cand : low(p, q) /\ (c.eq \/ p[2] # q[2])}
      order == b.distinct   \* the distinct individuals, as a sequence
      g == [f |-> [k \in DOMAIN order |-> Objective(c, order[k])], eq |-> c.eq, const |-> FALSE, feas |-> <<>>, viol |-> <<>>]
      par == {k \in DOMAIN order : order[k] \in Ran(SubSeq(b.next, 1, b.ne))}
  IN [s |-> [s EXCEPT !.front = best, !.k = @ + 1],
      bad |-> If(Ran(order) = pop /\ Len(order) = Cardinality(pop), "individuals")
              \cup If(s.k = 0 \/ \A x \in Ran(b.fresh) : x \in pop, "only the population is evaluated")
              \cup If(best \subseteq cand, "fitness of the best")
              \cup If(IF c.eq THEN best = opt ELSE best \subseteq opt /\ \A q \in opt : Cardinality({p \in best : p[2] = q[2]}) = 1, "the best are the non-dominated ones")
              \cup If(b.ne = Min2(c.elite, Min2(c.sel, Cardinality(pop))) \/ (c.elite < c.sel), "size of the elite")
              \cup If(c.elite < c.sel \/ SelectOk(g, DOMAIN order, c.sel, par), "NSGA-II selection")
              \cup If(Len(b.next) = (IF c.size <= Min2(c.elite, c.sel) THEN 2 * Cardinality(par) ELSE c.size), "size of the population")
              \cup If(\A k \in DOMAIN b.next : k <= b.ne => b.next[k] \in pop, "the elite stays")
              \cup If(c.elite < c.sel \/ \A k \in DOMAIN b.next : k <= b.ne \/ \E p \in par : \E q \in par : Cross(order[p], order[q], b.next[k]), "children come from selected parents")]
PDo(s, b) ==
  IF b.err # "" THEN [s |-> s, bad |-> {"raised " \o b.err}] ELSE
  CASE b.op = "gen" -> PGen(s, b)
    [] b.op = "front" -> [s |-> s, bad |-> If(FrontOk(b, DOMAIN b.f, Ran(b.res)) /\ Len(b.res) = Cardinality(Ran(b.res)), "non-dominated front")]
    [] b.op = "sort" -> [s |-> s, bad |-> If(SortOk(b, DOMAIN b.f, b.fs), "non-dominated sort")]
    [] b.op = "crowd" -> [s |-> s, bad |-> If(CrowdOk(b.f, DOMAIN b.f, b.res), "crowding distance")]
    [] b.op = "select" -> [s |-> s, bad |-> If(SelectOk(b, DOMAIN b.f, b.n, Ran(b.res)) /\ Len(b.res) = Cardinality(Ran(b.res)), "selection")]
    [] b.op = "count" -> [s |-> s, bad |-> If(b.n = Cardinality({j \in DOMAIN b.f : b.feas[j]}), "feasible items")]
(* ------------------------------------------- exploration: the front of a growing set, kept incrementally *)
POps(s) == IF s.k >= s.c.depth THEN {} ELSE {<<a, b>> : a \in 0..s.c.grid, b \in 0..s.c.grid}
Better(eq, v, w) == IF eq THEN v[1] < w[1] /\ v[2] < w[2] ELSE v[1] <= w[1] /\ v[2] <= w[2]
PNext0(s, v) ==
  LET f == s.front
      gone == {w \in f : Better(s.c.eq, v, w) /\ v # w}
      in == ~\E w \in f : Better(s.c.eq, w, v) /\ w # v
  IN [s EXCEPT !.k = @ + 1, !.items = @ \cup {v}, !.front = IF in THEN (f \ gone) \cup {v} ELSE f]
=============================================================================
