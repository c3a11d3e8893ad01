-------------------------------- MODULE Ranks --------------------------------
(* Ordering candidates: ranking functions, grid search, Evolino's populations with their operators, and hash-based neighbours.
   Fitness values are integers; NONE is the fitness of an individual that has not been evaluated (minus infinity).
   Weights are in 4096ths.  In case of ties every consistent order is allowed.
   Population: subs is a sequence of sub-populations [fit |-> id |-> fitness, gen |-> id |-> genome]; a simple population has one. *)
EXTENDS Fixed, FiniteSets
NONE == -1000000
If(b, x) == IF b THEN {} ELSE {x}
Ran(q) == {q[k] : k \in DOMAIN q}
NoDup(q) == Cardinality(Ran(q)) = Len(q)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN One ELSE Mul(a, Pow(a, n - 1))
RECURSIVE Sum(_)
Sum(f) == IF DOMAIN f = {} THEN 0 ELSE LET x == CHOOSE x \in DOMAIN f : TRUE IN f[x] + Sum([y \in DOMAIN f \ {x} |-> f[y]])
(* ------------------------------------------------------ ranking functions *)
(* the weight of the candidate of rank k (0 the worst) among n; p: parameters.  Fractions are p.f / p.d.  Not rescaled. *)
Raw(kind, n, k, p) ==
  CASE kind = "ranks" -> k * One
    [] kind = "base" -> (k * One) \div (n - 1)
    [] kind = "gini" -> k * p.lin + Mul(One - p.lin, Pow((k * One) \div (n - 1), p.m))
    [] kind = "exp" -> (k * p.t * One) \div (n - 1)                                    \* the logarithm of the weight
    [] kind = "hansen" -> Max2(One, ((n + 2) * One) \div (2 * (n - k)))                \* its exponential
    [] kind = "top" -> IF k * p.d >= n * (p.d - p.f) THEN One ELSE 0
    [] kind = "toplin" -> Max2(0, k * p.d - n * (p.d - p.f)) * 64
    [] kind = "bilinear" -> IF 5 * k < 4 * n THEN k * One ELSE k * One + (((5 * k - 4 * n) * p.b * One) \div 5)
Scaled(kind) == kind \in {"gini", "toplin", "bilinear"}
Weight(kind, n, k, p) ==
  IF ~Scaled(kind) THEN Raw(kind, n, k, p)
  ELSE IF Raw(kind, n, n - 1, p) = 0 THEN (IF k = n - 1 THEN One ELSE 0)
  ELSE Div(Raw(kind, n, k, p), Raw(kind, n, n - 1, p))
(* candidates with the same fitness share their ranks in some order *)
RankOk(R, w, kind, p, tol) ==
  /\ Len(w) = Len(R)
  /\ LET F == TLCEval([k \in 0..Len(R) - 1 |-> Weight(kind, Len(R), k, p)]) IN
     \A i \in DOMAIN R :
       LET G == {j \in DOMAIN R : R[j] = R[i]}
           a == Cardinality({j \in DOMAIN R : R[j] < R[i]})
           K == a..(a + Cardinality(G) - 1)
       IN /\ \E k \in K : Abs(w[i] - F[k]) <= tol
          /\ \A k \in K : \E j \in G : Abs(w[j] - F[k]) <= tol
          /\ Abs(Sum([j \in G |-> w[j]]) - Sum([k \in K |-> F[k]])) <= tol * Cardinality(G)
(* a tournament's winner is never worse than the one it was held for, and the worst loses to anybody better *)
TournOk(R, w, t) ==
  /\ Len(w) = Len(R) /\ SumSeq(w) = Len(R) /\ \A i \in DOMAIN w : w[i] >= 0
  /\ \A i \in DOMAIN R : LET up == {j \in DOMAIN R : R[j] >= R[i]} IN Sum([j \in up |-> w[j]]) >= Cardinality(up)
  /\ (t >= 2 => \A i \in DOMAIN R : (\A j \in DOMAIN R \ {i} : R[j] > R[i]) => w[i] = 0)
  /\ (t = 1 => \A i \in DOMAIN w : w[i] = 1)
  /\ (t >= 60 => \A i \in DOMAIN R : (\E j \in DOMAIN R : R[j] > R[i]) => w[i] = 0)     \* of so many random ones, one is the best
NormOk(R, w) ==
  LET n == Len(R) tol == 16 IN
  /\ Len(w) = n /\ Abs(SumSeq(w)) <= 2 * n
  /\ Abs(SumSeq([k \in DOMAIN w |-> Mul(w[k], w[k])]) - n * One) <= tol * n
  /\ \A i, j \in DOMAIN R : (R[i] > R[j] => w[i] > w[j]) /\ Abs((w[i] - w[1]) * (R[j] - R[1]) - (w[j] - w[1]) * (R[i] - R[1])) <= tol * (Abs(R[j] - R[1]) + Abs(R[i] - R[1]) + 1)
(* -------------------------------------------------------------- grid search *)
Grid(lo, hi, n, k) == IF n = 1 THEN lo ELSE lo + (((hi - lo) * (k - 1)) \div (n - 1))
Best(perf) == {k \in DOMAIN perf : \A j \in DOMAIN perf : perf[j] <= perf[k]}
NearP(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Abs(a[k] - b[k]) <= 2
GridOk(b) ==
  If(Len(b.calls) = b.n[1] * b.n[2] /\ \A i \in 1..b.n[1] : \A j \in 1..b.n[2] :
       Cardinality({k \in DOMAIN b.calls : NearP(b.calls[k], <<Grid(b.lo[1], b.hi[1], b.n[1], i), Grid(b.lo[2], b.hi[2], b.n[2], j)>>)}) = 1, "every grid point is evaluated once")
  \cup If(\E k \in Best(b.perf) : b.calls[k] = b.res, "a best point is returned")
  \cup If(Len(b.table) = Len(b.calls) /\ \A k \in DOMAIN b.calls : \E j \in DOMAIN b.table : b.table[j] = <<b.calls[k], b.perf[k]>>, "table of performances")
(* pattern search: 13 points around the centre, the pattern half as wide at each level and moved into the bounds *)
Pattern == {<<-2, 2>>, <<0, 2>>, <<2, 2>>, <<-1, 1>>, <<1, 1>>, <<-2, 0>>, <<0, 0>>, <<2, 0>>, <<-1, -1>>, <<1, -1>>, <<-2, -2>>, <<0, -2>>, <<2, -2>>}
RECURSIVE Two(_)
Two(n) == IF n = 0 THEN 1 ELSE 2 * Two(n - 1)
Around(lo, hi, c, level) ==
  LET w == [d \in 1..2 |-> (hi[d] - lo[d]) \div Two(level + 2)]
      mv == [d \in 1..2 |-> IF c[d] - 2 * w[d] < lo[d] THEN lo[d] - (c[d] - 2 * w[d]) ELSE IF c[d] + 2 * w[d] > hi[d] THEN hi[d] - (c[d] + 2 * w[d]) ELSE 0]
  IN {[d \in 1..2 |-> c[d] + p[d] * w[d] + mv[d]] : p \in Pattern}
RECURSIVE DoeOk(_, _, _)
DoeOk(b, cs, level) ==   \* cs: possible centres
  IF level = b.levels THEN \E c \in cs : NearP(c, b.res)
  ELSE LET q == SubSeq(b.calls, 13 * level + 1, 13 * level + 13)
           pf == SubSeq(b.perf, 13 * level + 1, 13 * level + 13)
           ok(c) == LET a == Around(b.lo, b.hi, c, level) IN Cardinality(a) = 13 /\ a = Ran(q)
       IN (\E c \in cs : ok(c)) /\ DoeOk(b, {q[k] : k \in Best(pf)}, level + 1)
(* --------------------------------------------------------------- populations *)
Top(fit, n) == {S \in SUBSET DOMAIN fit : Cardinality(S) = Min2(n, Cardinality(DOMAIN fit)) /\ \A x \in S : \A y \in DOMAIN fit \ S : fit[x] >= fit[y]}
IsTop(fit, n, S) == S \subseteq DOMAIN fit /\ Cardinality(S) = Min2(n, Cardinality(DOMAIN fit)) /\ \A x \in S : \A y \in DOMAIN fit \ S : fit[x] >= fit[y]
IsLow(fit, n, S) == S \subseteq DOMAIN fit /\ Cardinality(S) = Min2(n, Cardinality(DOMAIN fit)) /\ \A x \in S : \A y \in DOMAIN fit \ S : fit[x] <= fit[y]
Restrict(f, X) == [x \in X |-> f[x]]
Keep(u, X) == [fit |-> Restrict(u.fit, X), gen |-> Restrict(u.gen, X)]
MaxFit(fit) == CHOOSE m \in {fit[x] : x \in DOMAIN fit} : \A x \in DOMAIN fit : fit[x] <= m
MapOf(q) == [x \in {q[k][1] : k \in DOMAIN q} |-> (CHOOSE e \in Ran(q) : e[1] = x)[2]]
Same(u, o) == /\ NoDup([k \in DOMAIN o.fit |-> o.fit[k][1]]) /\ MapOf(o.fit) = u.fit
              /\ Ran(o.ids) = DOMAIN u.fit /\ o.n = Cardinality(DOMAIN u.fit) /\ NoDup(o.ids)
              /\ DOMAIN u.gen \subseteq DOMAIN u.fit /\ \A e \in Ran(o.gen) : e[2] = u.gen[e[1]]
Obs(s, o) == Len(o) = Len(s.subs) /\ \A k \in DOMAIN o : Same(s.subs[k], o[k])
NewFit(u, f) == [x \in DOMAIN u.fit |-> IF x \in DOMAIN f THEN Max2(u.fit[x], f[x]) ELSE u.fit[x]]
Shift(g, d) == [k \in DOMAIN g |-> g[k] + d]
(* children: the free places are filled with mutated copies of the fittest; every one of them is used about equally often *)
Refilled(u, o, max, delta) ==
  LET old == DOMAIN u.fit
      new == {e[1] : e \in Ran(o.fit)} \ old
      g == MapOf(o.gen)
      free == max - Cardinality(old)
      P(T) == \A x \in new : \E y \in T : g[x] = Shift(u.gen[y], delta)
      Even(T) == \A y \in T : Cardinality({x \in new : g[x] = Shift(u.gen[y], delta)}) >= free \div Cardinality(T)
  IN If(Cardinality(new) = free, "size of the refilled population")
     \cup If(\A x \in old : x \in DOMAIN MapOf(o.fit) /\ MapOf(o.fit)[x] = u.fit[x] /\ g[x] = u.gen[x], "parents are intact")
     \cup If(\A x \in new : MapOf(o.fit)[x] = NONE, "children are not evaluated")
     \cup If(free = 0 \/ \E T \in Top(u.fit, free) : P(T) /\ Even(T), "children are copies of the fittest")
Adopt(o) == [fit |-> MapOf(o.fit), gen |-> MapOf(o.gen)]
Subs(s, F(_)) == UNION {F(k) : k \in DOMAIN s.subs}
SelN(s, k, n) == IF n = NONE THEN Max2(1, Cardinality(DOMAIN s.subs[k].fit) \div 4) ELSE n
PopDo(s, b) ==
  CASE b.op = "add" -> LET t == [s EXCEPT !.subs[1] = [fit |-> [x \in Ran(b.xs) |-> NONE] @@ @.fit, gen |-> MapOf(b.gens) @@ @.gen]] IN [s |-> t, bad |-> If(Obs(t, b.obs), "add individuals")]
    [] b.op = "remove" -> LET t == [s EXCEPT !.subs[1] = Keep(@, DOMAIN @.fit \ Ran(b.xs))] IN [s |-> t, bad |-> If(Obs(t, b.obs), "remove individuals")]
    [] b.op = "set" -> LET t == [s EXCEPT !.subs[1].fit[b.x] = b.v] IN [s |-> t, bad |-> If(Obs(t, b.obs), "set fitness")]
    [] b.op = "clear" -> LET t == [s EXCEPT !.subs = [k \in DOMAIN @ |-> [@[k] EXCEPT !.fit = [x \in DOMAIN @ |-> NONE]]]] IN [s |-> t, bad |-> If(Obs(t, b.obs), "clear fitness")]
    [] b.op = "stats" -> LET f == s.subs[1].fit IN [s |-> s, bad |-> If(b.max = MaxFit(f), "maximal fitness")
           \cup If((NONE \in {f[x] : x \in DOMAIN f} /\ b.avg = NONE) \/ (NONE \notin {f[x] : x \in DOMAIN f} /\ Abs(b.avg * Cardinality(DOMAIN f) - Sum(f) * One) <= Cardinality(DOMAIN f)), "average fitness")]
    [] b.op = "best" -> LET f == s.subs[1].fit IN [s |-> s, bad |-> If(IsTop(f, b.n, Ran(b.set)) /\ NoDup(b.set), "best individuals")
           \cup If(IsTop(f, b.n, Ran(b.sorted)) /\ NoDup(b.sorted) /\ \A k \in 1..Len(b.sorted) - 1 : f[b.sorted[k]] >= f[b.sorted[k + 1]], "best individuals in order")
           \cup If(IsLow(f, b.n, Ran(b.worst)) /\ NoDup(b.worst), "worst individuals") \cup If(Obs(s, b.obs), "queries change nothing")]
    [] b.op = "removeworst" -> LET left == {e[1] : e \in Ran(b.obs[1].fit)} t == [s EXCEPT !.subs[1] = Keep(@, left \cap DOMAIN @.fit)] f == s.subs[1].fit n == Cardinality(DOMAIN f)
           IN [s |-> t, bad |-> If(IsTop(f, Max2(0, n - b.n), left), "remove the worst") \cup If(Obs(t, b.obs), "survivors are unchanged")]
    [] b.op = "select" -> LET L(k) == {e[1] : e \in Ran(b.obs[k].fit)} t == [s EXCEPT !.subs = [k \in DOMAIN @ |-> Keep(@[k], L(k) \cap DOMAIN @[k].fit)]]
           IN [s |-> t, bad |-> Subs(s, LAMBDA k : If(IsTop(s.subs[k].fit, SelN(s, k, b.n), L(k)), "selection keeps the best")) \cup If(Obs(t, b.obs), "survivors are unchanged")]
    [] b.op = "reproduce" -> [s |-> [s EXCEPT !.subs = [k \in DOMAIN @ |-> Adopt(b.obs[k])]], bad |-> Subs(s, LAMBDA k : Refilled(s.subs[k], b.obs[k], s.c.max, b.delta))]
    [] b.op = "burst" ->
         LET one(k) == {x \in DOMAIN s.subs[k].fit : s.subs[k].fit[x] = MaxFit(s.subs[k].fit) /\ Refilled(Keep(s.subs[k], {x}), b.obs[k], s.c.max, b.delta) = {}
                                                     /\ {e[1] : e \in Ran(b.obs[k].fit)} \cap DOMAIN s.subs[k].fit = {x}}
         IN [s |-> [s EXCEPT !.subs = [k \in DOMAIN @ |-> Adopt(b.obs[k])]], bad |-> If(\A k \in DOMAIN s.subs : one(k) # {}, "burst mutation keeps one best and its mutated copies")]
    [] b.op = "combine" ->   \* individuals built from one member of each sub-population
         LET n == Cardinality(DOMAIN s.subs[1].fit) IN
         [s |-> s, bad |-> If(Len(b.inds) = s.c.comb * n, "number of combinations")
           \cup If(\A i \in DOMAIN b.inds : Len(b.inds[i].subs) = Len(s.subs), "one member of each sub-population")
           \cup If(\A k \in DOMAIN s.subs : \A x \in DOMAIN s.subs[k].fit : Cardinality({i \in DOMAIN b.inds : b.inds[i].subs[k] = x}) = s.c.comb, "every member is used equally often")
           \cup If(\A i \in DOMAIN b.inds : b.inds[i].genome = [k \in DOMAIN s.subs |-> s.subs[k].gen[b.inds[i].subs[k]]], "genome of a combination")
           \cup If(Obs(s, b.obs), "queries change nothing")]
    [] b.op = "credit" ->    \* the fitness of a combination
         LET t == [s EXCEPT !.subs = [k \in DOMAIN @ |-> [@[k] EXCEPT !.fit[b.subs[k]] = Max2(@, b.v)]]] IN [s |-> t, bad |-> If(Obs(t, b.obs), "fitness of a combination goes to its members")]
    [] b.op = "new" ->       \* a fresh Evolino population
         [s |-> [s EXCEPT !.subs = [k \in DOMAIN b.obs |-> Adopt(b.obs[k])]],
          bad |-> If(Len(b.obs) = Len(s.c.shape), "one sub-population for each chromosome")
           \cup If(\A k \in DOMAIN b.obs : b.obs[k].n = s.c.max /\ NoDup(b.obs[k].ids) /\ Cardinality({e[1] : e \in Ran(b.obs[k].fit)}) = s.c.max, "sizes of the sub-populations")
           \cup If(\A k \in DOMAIN b.obs : \A e \in Ran(b.obs[k].gen) : Len(e[2]) = s.c.shape[k] /\ \A j \in DOMAIN e[2] : e[2][j] >= b.lo /\ e[2][j] <= b.hi, "random genomes of the right shape")
           \cup If(\A k, j \in DOMAIN b.obs : k # j => Ran(b.obs[k].ids) \cap Ran(b.obs[j].ids) = {}, "individuals of their own")
           \cup If(b.proto, "the prototype is unchanged")]
(* ------------------------------------------------------------------- hashing *)
FirstOne(x, perm) == CHOOSE k \in 1..Len(x) + 1 : (k = Len(x) + 1 \/ x[perm[k]] = 1) /\ \A j \in 1..k - 1 : x[perm[j]] # 1
Hash(perms, x) == [p \in DOMAIN perms |-> FirstOne(x, perms[p])]
Agree(x, y) == Cardinality({k \in DOMAIN x : x[k] = y[k]})
Dist2(x, y) == SumSeq([k \in DOMAIN x |-> (x[k] - y[k]) * (x[k] - y[k])])
(* the answer of a query: distinct candidates, nearest first, none left out that is nearer; val: smaller is nearer *)
Knn(cand, val, n, res) ==
  /\ NoDup(res) /\ Ran(res) \subseteq cand /\ Len(res) = Min2(n, Cardinality(cand))
  /\ \A k \in 1..Len(res) - 1 : val[res[k]] <= val[res[k + 1]]
  /\ \A x \in Ran(res) : \A y \in cand \ Ran(res) : val[x] <= val[y]
Vals(s, q) == [i \in DOMAIN s.items |-> IF s.c.kind = "minhash" THEN -Agree(s.items[i].x, q) ELSE Dist2(s.items[i].x, q)]
CellOf(s, b) == IF s.c.kind = "minhash" THEN Hash(s.c.perms, b.x) ELSE b.cell
HashDo(s, b) ==
  CASE b.op = "put" -> [s |-> [s EXCEPT !.items = Append(@, [x |-> b.x, cell |-> CellOf(s, b)])],
         bad |-> If(s.c.kind = "minhash" \/ (Len(b.cell) = Len(b.x) + 1 /\ \A k \in DOMAIN b.x : b.cell[k] * s.c.side <= b.x[k] * 16 + 4 * (Abs(b.cell[k]) + 1) /\ b.x[k] * 16 <= (b.cell[k] + 1) * s.c.side + 4 * (Abs(b.cell[k]) + 1)), "hypercube of a point")
           \cup If(s.c.kind = "minhash" \/ b.cell[Len(b.cell)] = -1 \/ \A i \in DOMAIN s.items : s.items[i].cell = b.cell => Dist2(s.items[i].x, b.x) <= 4 * s.c.rad2, "points of one ball are near each other")]
    [] b.op = "knn" -> LET cand == {i \in DOMAIN s.items : s.items[i].cell = CellOf(s, b)} IN
         [s |-> s, bad |-> If(Knn(cand, Vals(s, b.x), b.k, b.res), "nearest neighbours") \cup If(\A k \in DOMAIN b.res : b.res[k] \in DOMAIN s.items => b.xs[k] = s.items[b.res[k]].x, "stored items")]
    [] b.op = "same" -> [s |-> s, bad |-> If(b.res = (Agree(b.x, b.y) * One) \div Len(b.x) \/ Abs(b.res * Len(b.x) - Agree(b.x, b.y) * One) <= Len(b.x), "coefficient of similarity")]
    [] b.op = "refuse" -> [s |-> s, bad |-> If(b.raised, "items of a wrong shape are refused")]
    [] b.op = "perms" -> [s |-> s, bad |-> If(Len(s.c.perms) = b.n /\ \A p \in Ran(s.c.perms) : Len(p) = b.dim /\ Ran(p) = 1..b.dim, "permutations")]
(* --------------------------------------------------------------------------- *)
RInit0(c) == [c |-> c, k |-> 0, items |-> <<>>, subs |-> IF c.kind = "pop" THEN <<[fit |-> <<>>, gen |-> <<>>]>> ELSE <<>>]
RDo(s, b) ==
  IF b.err # "" THEN [s |-> s, bad |-> {"raised " \o b.err}] ELSE
  CASE s.c.kind \in {"pop", "evo"} -> PopDo(s, b)
    [] s.c.kind \in {"minhash", "lsh"} -> HashDo(s, b)
    [] b.op = "rank" -> [s |-> s, bad |-> If(RankOk(b.R, b.w, b.kind, b.p, b.tol), "weights of " \o b.kind) \cup If(b.intact, "the fitness values are unchanged")]
    [] b.op = "tournament" -> [s |-> s, bad |-> If(TournOk(b.R, b.w, b.t), "tournament selection")]
    [] b.op = "normal" -> [s |-> s, bad |-> If(NormOk(b.R, b.w), "normalised fitness")]
    [] b.op = "grid" -> [s |-> s, bad |-> GridOk(b)]
    [] b.op = "doe" -> [s |-> s, bad |-> If(Len(b.calls) = 13 * b.levels /\ \A k \in DOMAIN b.calls : \A d \in 1..2 : b.calls[k][d] >= b.lo[d] /\ b.calls[k][d] <= b.hi[d], "points of the pattern search")
           \cup If(Len(b.calls) = 13 * b.levels /\ DoeOk(b, {<<(b.lo[1] + b.hi[1]) \div 2, (b.lo[2] + b.hi[2]) \div 2>>}, 0), "pattern search")]
(* -------------------------- exploration: populations, evaluated, selected and refilled; hashed items *)
ROps(s) ==
  IF s.k >= s.c.depth THEN {} ELSE
  IF s.c.kind = "minhash" THEN {[op |-> "put", x |-> x] : x \in s.c.universe} \cup {[op |-> "knn", x |-> x, k |-> k] : x \in s.c.universe, k \in 1..2}
  ELSE LET f == s.subs[1].fit IN
    {[op |-> "set", x |-> x, v |-> v] : x \in DOMAIN f, v \in 0..s.c.fits} \cup (IF s.k < s.c.max THEN {[op |-> "add"]} ELSE {})
    \cup (IF DOMAIN f = {} THEN {} ELSE {[op |-> "removeworst", n |-> n] : n \in 0..Cardinality(DOMAIN f)} \cup {[op |-> o] : o \in {"select", "reproduce", "burst", "clear", "best"}})
(* one allowed outcome (ties resolved in favour of the oldest) *)
Oldest(f, n) == CHOOSE S \in Top(f, n) : \A T \in Top(f, n) : Sum([x \in S |-> x]) <= Sum([x \in T |-> x])
Children(s, f) == LET m == s.c.max - Cardinality(DOMAIN f) IN [x \in s.next..(s.next + m - 1) |-> NONE] @@ f
RNext0(s, op) ==
  LET t == [s EXCEPT !.k = @ + 1] IN
  IF s.c.kind = "minhash" THEN (IF op.op = "put" THEN [t EXCEPT !.items = Append(@, [x |-> op.x, cell |-> Hash(s.c.perms, op.x)])] ELSE t)
  ELSE LET f == s.subs[1].fit
           G(h) == [t EXCEPT !.subs[1].fit = h]
           N(h) == [G(h) EXCEPT !.next = @ + s.c.max]
       IN CASE op.op = "set" -> [G([f EXCEPT ![op.x] = op.v]) EXCEPT !.top = IF f[op.x] = s.top /\ op.v < s.top THEN MaxFit([f EXCEPT ![op.x] = op.v]) ELSE Max2(@, op.v)]
            [] op.op = "add" -> [G((s.next :> NONE) @@ f) EXCEPT !.next = @ + 1]
            [] op.op = "clear" -> [G([x \in DOMAIN f |-> NONE]) EXCEPT !.top = NONE]
            [] op.op = "removeworst" -> LET h == Restrict(f, Oldest(f, Cardinality(DOMAIN f) - op.n)) IN [G(h) EXCEPT !.top = IF DOMAIN h = {} THEN NONE ELSE @]
            [] op.op = "select" -> G(Restrict(f, Oldest(f, Max2(1, Cardinality(DOMAIN f) \div 4))))
            [] op.op = "reproduce" -> N(Children(s, f))
            [] op.op = "burst" -> N(Children(s, Restrict(f, Oldest(f, 1))))
            [] op.op = "best" -> t
XInit0(c) == [c |-> c, k |-> 0, items |-> <<>>, next |-> 1, top |-> NONE, subs |-> <<[fit |-> <<>>, gen |-> <<>>]>>]
=============================================================================
