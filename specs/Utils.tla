------------------------------- MODULE Utils -------------------------------
(* The utility library: graph searches, memoised functions, codes, permutations and blocks, packing, selections of dictionaries,
   random drawing, first encounters, Fisher information.
   Graphs are adjacency sequences adj[n] = sequence of successors of node n.  A step b records one call: arguments and result. *)
EXTENDS Fixed, FiniteSets
If(b, x) == IF b THEN {} ELSE {x}
Ran(q) == {q[k] : k \in DOMAIN q}
NoDup(q) == Cardinality(Ran(q)) = Len(q)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
RECURSIVE ProdSeq(_)
ProdSeq(q) == IF q = <<>> THEN 1 ELSE Head(q) * ProdSeq(Tail(q))
(* ------------------------------------------------------------------ graphs *)
Succ(adj, X) == UNION {Ran(adj[n]) : n \in X}
(* layers of a breadth-first search from S that never passes through a node of Stop *)
RECURSIVE Layers(_, _, _, _)
Layers(adj, front, seen, Stop) ==
  IF front = {} THEN <<>>
  ELSE LET new == TLCEval(Succ(adj, front \ Stop) \ seen) IN <<front>> \o Layers(adj, new, seen \cup new, Stop)
LayersFrom(adj, S, Stop) == Layers(adj, S, S, Stop)
Dist(ls, n) == (CHOOSE k \in DOMAIN ls : n \in ls[k]) - 1
Reach(adj, S, D) == LET ls == TLCEval(LayersFrom(adj, S, D)) IN {<<n, Dist(ls, n)>> : n \in D \cap UNION Ran(ls)}
(* restricted to a full set *)
Inside(adj, F) == [n \in DOMAIN adj |-> SelectSeq(adj[n], LAMBDA m : m \in F)]
FloodOk(b) ==
  LET adj == IF b.hasfull THEN Inside(b.adj, Ran(b.full)) ELSE b.adj
      S == IF b.hasfull THEN Ran(b.init) \cap Ran(b.full) ELSE Ran(b.init)
      ls == TLCEval(LayersFrom(adj, S, {}))
      all == UNION Ran(ls)
      R == Ran(b.res)
      need == IF Ran(b.relevant) \subseteq all THEN {Dist(ls, n) : n \in Ran(b.relevant)} ELSE {Len(ls) - 1}
      last == CHOOSE m \in (need \cup {1}) : \A k \in need \cup {1} : k <= m
  IN NoDup(b.res) /\ IF b.hasrel THEN R = UNION {ls[k] : k \in {j \in DOMAIN ls : j - 1 <= last}} ELSE R = all
(* ------------------------------------------------------------------- codes *)
Xor2(a, b) == IF a = b THEN 0 ELSE 1
RECURSIVE XorN(_, _, _)
XorN(a, b, n) == IF n = 0 THEN 0 ELSE Xor2(a % 2, b % 2) + 2 * XorN(a \div 2, b \div 2, n - 1)
Gray(i, n) == XorN(i, i \div 2, n)
RECURSIVE UnGray(_, _)
UnGray(g, n) == IF n = 0 THEN 0 ELSE LET h == UnGray(g \div 2, n - 1) IN 2 * h + Xor2(h % 2, g % 2)
RECURSIVE Bits(_)
Bits(i) == IF i < 2 THEN <<i>> ELSE Append(Bits(i \div 2), i % 2)
RECURSIVE FromBits(_)
FromBits(q) == IF q = <<>> THEN 0 ELSE 2 * FromBits(SubSeq(q, 1, Len(q) - 1)) + q[Len(q)]
OneHot(v, n) == [k \in 1..n |-> IF k = v + 1 THEN 1 ELSE 0]
(* ------------------------------------------- blocks: position of an element after the array was cut into blocks *)
(* coordinates of position p in an array of the given shape (row-major), and back *)
RECURSIVE Coord(_, _)
Coord(p, shape) == IF shape = <<>> THEN <<>> ELSE LET r == ProdSeq(Tail(shape)) IN <<p \div r>> \o Coord(p % r, Tail(shape))
RECURSIVE Pos(_, _)
Pos(x, shape) == IF shape = <<>> THEN 0 ELSE x[1] * ProdSeq(Tail(shape)) + Pos(Tail(x), Tail(shape))
BlockPos(p, shape, blk) ==
  LET x == Coord(p, shape)
      outer == [k \in DOMAIN shape |-> x[k] \div blk[k]]
      inner == [k \in DOMAIN shape |-> x[k] % blk[k]]
  IN Pos(outer, [k \in DOMAIN shape |-> shape[k] \div blk[k]]) * ProdSeq(blk) + Pos(inner, blk)
BlocksOk(b) == Len(b.res) = Len(b.arr) /\ \A p \in DOMAIN b.arr : b.res[BlockPos(p - 1, b.shape, b.blk) + 1] = b.arr[p]
RECURSIVE FlatTriu(_, _)
FlatTriu(m, r) == IF r > Len(m) THEN <<>> ELSE SubSeq(m[r], r, Len(m)) \o FlatTriu(m, r + 1)
Triu(m) == [i \in DOMAIN m |-> [j \in DOMAIN m |-> IF j >= i THEN m[i][j] ELSE 0]]
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Flat(Tail(l))
(* rows of matrices put side by side; a block row of matrices, stacked *)
Beside(ms) == [r \in DOMAIN ms[1] |-> Flat([k \in DOMAIN ms |-> ms[k][r]])]
BlockM(rows) == Flat([i \in DOMAIN rows |-> Beside(rows[i])])
Zeros(r, c) == [i \in 1..r |-> [j \in 1..c |-> 0]]
Diag(ms) == BlockM([i \in DOMAIN ms |-> [j \in DOMAIN ms |-> IF i = j THEN ms[i] ELSE Zeros(Len(ms[i]), Len(ms[j]))]])
(* ------------------------------------------------------- dictionaries, as sets of <<key, value>> pairs *)
Keys(d) == {p[1] : p \in Ran(d)}
Get(d, k) == (CHOOSE p \in Ran(d) : p[1] = k)[2]
Match(b) == \A k \in 1..Len(b.sel) :
              IF b.sel[k].key \in Keys(b.d) THEN Get(b.d, b.sel[k].key) \in Ran(b.sel[k].vals) ELSE ~b.req
SubD(b) == {p \in Ran(b.d) : (p[1] \in Ran(b.keys)) # b.flip}
RECURSIVE Combos(_)
Combos(q) == IF q = <<>> THEN {<<>>} ELSE {<<v>> \o r : v \in Ran(Head(q)), r \in Combos(Tail(q))}
DictCombos(b) == {{<<b.keys[k], t[k]>> : k \in DOMAIN b.keys} : t \in Combos(b.vals)}
(* --------------------------------------------------------------- drawing *)
Best(v) == {k \in DOMAIN v : \A j \in DOMAIN v : v[j] <= v[k]}
(* counts of N draws with weights w: nothing impossible, and no deviation beyond seven standard deviations (and rounding) *)
DrawnOk(counts, w) ==
  LET T == SumSeq(w) N == SumSeq(counts) IN
  /\ Len(counts) = Len(w)
  /\ \A k \in DOMAIN w : (w[k] = 0 => counts[k] = 0)
  /\ \A k \in DOMAIN w : LET e == (N * w[k]) \div T
                             d == Max2(0, Abs(counts[k] - e) - 2)
                         IN d * d <= 49 * (e + 1)
(* --------------------------------------------------------- first encounters *)
Longest(ls) == LET n == {Len(ls[k]) : k \in DOMAIN ls} IN CHOOSE m \in n : \A k \in n : k <= m
First(l, t, dflt) == LET h == {k \in DOMAIN l : l[k] <= t} IN IF h = {} THEN dflt ELSE (CHOOSE k \in h : \A j \in h : k <= j) - 1
Sorted(q) == CHOOSE p \in [DOMAIN q -> Ran(q)] : (\A i, j \in DOMAIN q : i < j => p[i] <= p[j]) /\ \A v \in Ran(q) : Cardinality({i \in DOMAIN q : q[i] = v}) = Cardinality({i \in DOMAIN q : p[i] = v})
FoundOk(b) ==
  LET n == Len(b.lists)
      f(t) == [k \in 1..n |-> First(b.lists[k], t, Longest(b.lists))]
      med(q) == LET s == TLCEval(Sorted(q)) IN s[(n + 1) \div 2] + s[(n + 2) \div 2]
  IN Len(b.res) = Len(b.targets) /\ \A k \in DOMAIN b.targets : b.res[k] = b.batch * (IF b.median THEN med(f(b.targets[k])) ELSE SumSeq(f(b.targets[k])))
(* ------------------------------------------------------------------ matrices in fixed point *)
Dot(x, y) == SumSeq([k \in DOMAIN x |-> Mul(x[k], y[k])])
Col(m, j) == [i \in DOMAIN m |-> m[i][j]]
MatMul(a, c) == [i \in DOMAIN a |-> [j \in DOMAIN c[1] |-> Dot(a[i], Col(c, j))]]
Trans(m) == [j \in DOMAIN m[1] |-> Col(m, j)]
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE 0]]
NearM(a, c, tol) == Len(a) = Len(c) /\ \A i \in DOMAIN c : NearV(a[i], c[i], tol, 400)
(* the blocks of the Fisher information of a Gaussian: the inverse covariance, and its lower right parts with the squared inverse
   diagonal of the Cholesky factor added to the first entry; inv: the inverses of these blocks *)
FisherOk(b) ==
  LET n == Len(b.sigma) IN
  /\ Len(b.fim) = n + 1 /\ Len(b.inv) = n + 1
  /\ NearM(MatMul(b.sigma, b.fim[1]), Ident(n), 40)
  /\ \A k \in 1..n : LET F == b.fim[k + 1] m == n - k + 1 IN
       /\ Len(F) = m
       /\ \A i, j \in 1..m : (i # 1 \/ j # 1) => Abs(F[i][j] - b.fim[1][i + k - 1][j + k - 1]) <= 4
       /\ Near(Mul(F[1][1] - b.fim[1][k][k], Mul(b.factor[k][k], b.factor[k][k])), One, 60, 0)
  /\ \A k \in 1..n + 1 : NearM(MatMul(b.fim[k], b.inv[k]), Ident(Len(b.fim[k])), 60)
(* ------------------------------------------------------------------- steps *)
UInit0(c) == [c |-> c, cache |-> {}, edges |-> {}]
Known(s, b) == \E e \in s.cache : e[1] = b.args /\ e[2] = Ran(b.kw)
Value(s, b) == (CHOOSE e \in s.cache : e[1] = b.args /\ e[2] = Ran(b.kw))[3]
Stay(s, bad) == [s |-> s, bad |-> bad]
UDo(s, b) ==
  IF b.err # "" THEN Stay(s, {b.op \o " raised " \o b.err}) ELSE
  CASE b.op = "memo" -> (IF Known(s, b) THEN Stay(s, If(b.res = Value(s, b), "memoised value") \cup If(b.calls = 0, "known results are not computed again"))
                        ELSE [s |-> [s EXCEPT !.cache = @ \cup {<<b.args, Ran(b.kw), b.ret>>}], bad |-> If(b.res = b.ret, "value of the function") \cup If(b.calls = 1, "the function is called once")])
    [] b.op = "multi" -> Stay(s, If(b.res = SumSeq(b.rets), "average of the repetitions") \cup If(Len(b.rets) = b.n, "number of repetitions"))
    [] b.op = "store" -> Stay(s, If(b.res = b.rets /\ b.stored = b.rets, "stored results"))
    [] b.op = "reach" -> Stay(s, If(Ran(b.res) = Reach(b.adj, Ran(b.start), Ran(b.dests)) /\ NoDup(b.res), "reachable destinations and their distances")
                             \cup If(b.startafter = b.start /\ b.destsafter = b.dests, "arguments of reachable"))
    [] b.op = "flood" -> Stay(s, If(FloodOk(b), "flooded set"))
    [] b.op = "gray" -> Stay(s, If(b.gray = Gray(b.i, b.n), "Gray code") \cup If(b.back = b.i, "Gray code back") \cup If(b.un = UnGray(b.i, b.n), "integer of a Gray code"))
    [] b.op = "binary" -> Stay(s, If(b.res = Bits(b.i), "binary representation") \cup If(b.val = FromBits(b.arr), "integer of a binary array"))
    [] b.op = "onehot" -> Stay(s, If(b.res = OneHot(b.i, b.n), "one-to-n code") \cup If(b.back = b.i, "one-to-n code back"))
    [] b.op = "permute" -> Stay(s, If(b.res = [k \in DOMAIN b.perm |-> b.arr[b.perm[k] + 1]], "permuted array"))
    [] b.op = "blocks" -> Stay(s, If(BlocksOk(b), "array cut into blocks"))
    [] b.op = "triu" -> Stay(s, If(b.flat = FlatTriu(b.m, 1), "packed triangle") \cup If(b.back = Triu(b.m), "unpacked triangle"))
    [] b.op = "bdiag" -> Stay(s, If(b.res = Diag(b.ms), "block-diagonal matrix"))
    [] b.op = "bcomb" -> Stay(s, If(b.res = BlockM(b.rows), "combined blocks"))
    [] b.op = "argmax" -> Stay(s, If({k + 1 : k \in Ran(b.all)} = Best(b.v) /\ NoDup(b.all), "all maxima") \cup If({k + 1 : k \in Ran(b.some)} \subseteq Best(b.v), "a maximum")
                              \cup If(Cardinality(Ran(b.some)) = Cardinality(Best(b.v)), "every maximum can be chosen"))
    [] b.op = "draw" -> Stay(s, If(DrawnOk(b.counts, b.w), "drawn indices") \cup If(b.after, "the probabilities stay unchanged"))
    [] b.op = "gibbs" -> Stay(s, If(IF b.t = 0 THEN \A k \in DOMAIN b.v : (b.counts[k] > 0) = (k \in Best(b.v))
                                    ELSE DrawnOk(b.counts, [k \in DOMAIN b.v |-> Exp(Max2(-9 * One, ((b.v[k] - MaxSeq(b.v)) * One) \div b.t))]), "softmax draw") \cup If(b.after, "the values stay unchanged"))
    [] b.op = "iter" -> Stay(s, If(Ran(b.res) = Combos([k \in DOMAIN b.t |-> [j \in 1..b.t[k] |-> j - 1]]) /\ NoDup(b.res), "combinations"))
    [] b.op = "cross" -> Stay(s, If(Ran(b.res) = Combos(b.sets) /\ NoDup(b.res), "cross product"))
    [] b.op = "decr" -> Stay(s, If(Ran(b.res) = {[b.t EXCEPT ![k] = @ - 1] : k \in {j \in DOMAIN b.t : b.t[j] > 0}} /\ NoDup(b.res), "decremented tuples"))
    [] b.op = "dictc" -> Stay(s, If({Ran(b.res[k]) : k \in DOMAIN b.res} = DictCombos(b) /\ Len(b.res) = Cardinality(DictCombos(b)) /\ \A k \in DOMAIN b.res : NoDup(b.res[k]), "dictionary combinations")
                              \cup If(b.after, "the dictionary stays unchanged"))
    [] b.op = "match" -> Stay(s, If(b.res = Match(b), "matching dictionary"))
    [] b.op = "subd" -> Stay(s, If(Ran(b.res) = SubD(b) /\ NoDup(b.res), "selected entries"))
    [] b.op = "uniq" -> Stay(s, If(Ran(b.res) = Ran(b.vs) /\ NoDup(b.res), "unique arrays"))
    [] b.op = "tuprem" -> Stay(s, If(b.res = SubSeq(b.t, 1, b.i) \o SubSeq(b.t, b.i + 2, Len(b.t)), "removed item"))
    [] b.op = "scale" -> Stay(s, LET lo == -MaxSeq([k \in DOMAIN b.d |-> -b.d[k]]) hi == MaxSeq(b.d) IN
                              If(\A k \in DOMAIN b.d : Abs(b.res[k] - (((b.d[k] - lo) * (b.lim[2] - b.lim[1]) * One) \div (hi - lo) + b.lim[1] * One)) <= 2, "scaled array"))
    [] b.op = "pct" -> Stay(s, If(Abs(b.res - ((Cardinality({k \in DOMAIN b.out : b.out[k] # b.true[k]}) * 100 * One) \div Len(b.out))) <= 2, "percentage of errors"))
    [] b.op = "found" -> Stay(s, If(FoundOk(b), "average number of steps"))
    [] b.op = "fisher" -> Stay(s, If(FisherOk(b), "Fisher information"))
    [] b.op = "orth" -> Stay(s, If(NearM(MatMul(Trans(b.q), b.q), Ident(Len(b.q)), 12), "orthogonal matrix"))
    [] b.op = "sqrtm" -> Stay(s, If(NearM(MatMul(b.r, b.r), b.m, 40) /\ \A i, j \in DOMAIN b.r : Abs(b.r[i][j] - b.r[j][i]) <= 2, "square root of a matrix"))
    [] b.op = "names" -> Stay(s, If(NoDup(b.names), "names are unique") \cup If(b.again = b.names, "names do not change") \cup If(b.set = b.given, "given names"))
(* ------------------------------- exploration: growing graphs, with a start and two destinations *)
UOps(s) == IF Cardinality(s.edges) >= s.c.edges THEN {} ELSE {<<a, b>> : a \in 1..s.c.n, b \in 1..s.c.n} \ s.edges
UNext0(s, e) == [s EXCEPT !.edges = @ \cup {e}]
=============================================================================
