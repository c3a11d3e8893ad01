------------------------------ MODULE Analysis ------------------------------
(* Analysing data and samples: principal components, k-means seeds, Gaussian
   processes, importance mixing, Indian buffets, adaptive resampling, mixtures
   of Gaussians, universal search, keyword arguments and the bookkeeping of
   experiments.  Real numbers are fixed point (4096 units). *)
EXTENDS Fixed, FiniteSets
Dot(a, b) == SumSeq([k \in DOMAIN a |-> Mul(a[k], b[k])])
IDot(a, b) == SumSeq([k \in DOMAIN a |-> a[k] * b[k]])
SumF(f(_), n) == SumSeq([k \in 1..n |-> f(k)])
Sub(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
Bag(q) == [v \in {q[k] : k \in DOMAIN q} |-> Cardinality({k \in DOMAIN q : q[k] = v})]
(*---- principal components -------------------------------------------------*)
(* n^2 times the scatter around the mean: whole numbers *)
Scatter(X) == LET n == Len(X)
                  d == Len(X[1])
                  s == [i \in 1..d |-> SumSeq([k \in 1..n |-> X[k][i]])]
              IN TLCEval([i \in 1..d |-> [j \in 1..d |-> n * SumSeq([k \in 1..n |-> X[k][i] * X[k][j]]) - s[i] * s[j]]])
App(M, v) == TLCEval([i \in DOMAIN v |-> SumSeq([j \in DOMAIN v |-> M[i][j] * v[j]])])   \* whole matrix, fixed vector
Trace(M) == SumSeq([i \in DOMAIN M |-> M[i][i]])
(* Rayleigh quotient of a unit vector *)
Lam(M, v) == LET w == App(M, v) IN SumSeq([i \in DOMAIN v |-> Mul(w[i], v[i])])
Grid(d) == [1..d -> -1..1]
(* what remains of w beside the components *)
Rest(V, w) == TLCEval([i \in DOMAIN w |-> w[i] - SumSeq([k \in DOMAIN V |-> Mul(Dot(V[k], w), V[k][i])])])
Shrink(w) == TLCEval([i \in DOMAIN w |-> w[i] \div 16])
IsPca(X, dim, V) ==
  LET M == Scatter(X)
      d == Len(X[1])
      tol == Trace(M) * 6 + 8
      lams == TLCEval([k \in DOMAIN V |-> Lam(M, V[k]) \div 64])
      low == MinSet({lams[k] : k \in DOMAIN lams})
  IN /\ Len(V) = dim
     /\ \A a \in DOMAIN V : Len(V[a]) = d /\ \A b \in DOMAIN V : Near(Dot(V[a], V[b]), IF a = b THEN One ELSE 0, 12, 0)
     /\ \A a \in DOMAIN V : LET w == App(M, V[a])
                                l == Lam(M, V[a])
                            IN \A i \in 1..d : Abs(w[i] - Mul(l, V[a][i])) <= tol
     (* no direction beside them varies more *)
     /\ \A g \in Grid(d) : LET w == Shrink(Rest(V, [i \in 1..d |-> g[i] * One]))     \* 256 units
                               q == App(M, w)
                           IN IDot(q, w) \div 64 <= (low * (IDot(w, w) \div 512)) \div 8 + low + Trace(M) * 24 + 8
(* gap: the variation along the components is more than double that along anything else *)
Gap(X, V) == LET M == Scatter(X)
                 S == SumSeq([k \in DOMAIN V |-> Lam(M, V[k]) \div 64])
                 low == MinSet({Lam(M, V[k]) \div 64 : k \in DOMAIN V})
             IN low > 64 /\ (Len(V) = Len(X[1]) \/ (Trace(M) * 64 - S >= 0 /\ low > 2 * (Trace(M) * 64 - S) + 32))
MeanX(X) == [i \in DOMAIN X[1] |-> (SumSeq([k \in DOMAIN X |-> X[k][i]]) * One) \div Len(X)]
Coords(X, V) == LET m == MeanX(X) IN [r \in DOMAIN X |-> [k \in DOMAIN V |-> SumSeq([i \in DOMAIN m |-> Mul(X[r][i] * One - m[i], V[k][i])])]]
NearM(A, B, t) == Len(A) = Len(B) /\ \A k \in DOMAIN B : NearV(A[k], B[k], t, 0)
PcaOk(op) ==
  LET X == op.x
      r == op.res
      d == Len(X[1])
  IN IF op.dim > d THEN r.err # ""
     ELSE r.err = "" /\ r.same /\ IsPca(X, op.dim, r.v) /\ NearM(r.y, Coords(X, r.v), 24)
(* the iterative variant spans the same space (up to its stopping criterion) *)
PpcaOk(op) ==
  LET X == op.x
      r == op.res
  IN IF op.dim > Len(X[1]) \/ ~Gap(X, r.v) THEN TRUE
     ELSE r.err = "" /\ Len(r.w) = op.dim /\ \A k \in DOMAIN r.w : LET q == Rest(r.v, r.w[k]) IN \A i \in DOMAIN q : Abs(q[i]) <= 24 + (MaxSeq([j \in DOMAIN q |-> Abs(r.w[k][j])]) \div 64)
(*---- k-means --------------------------------------------------------------*)
D2(a, b) == SumSeq([i \in DOMAIN a |-> (a[i] - b[i]) * (a[i] - b[i])])
Cost(X, C) == SumSeq([k \in DOMAIN X |-> MinSet({D2(X[k], C[j]) : j \in DOMAIN C})])
Greedy(X, C) == \A k \in 2..Len(C) : LET P == SubSeq(C, 1, k - 1)
                                     IN \A i \in DOMAIN X : Cost(X, SubSeq(C, 1, k)) <= Cost(X, Append(P, X[i]))
SeedsOk(op) == LET r == op.res IN
  /\ r.err = "" /\ Len(r.seeds) = op.k /\ (\A j \in DOMAIN r.seeds : \E i \in DOMAIN op.x : op.x[i] = r.seeds[j])
  /\ r.seeds[1] = op.x[op.first + 1] /\ Greedy(op.x, r.seeds)
Members(lab, j) == {k \in DOMAIN lab : lab[k] = j - 1}
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
MeansOk(op) == LET r == op.res
                   d == Len(op.x[1])
               IN /\ r.err = "" /\ Len(r.lab) = Len(op.x) /\ Len(r.cen) = op.k
                  /\ \A k \in DOMAIN r.lab : r.lab[k] \in 0..(op.k - 1)
                  /\ \A j \in 1..op.k : LET S == Members(r.lab, j) IN
                       S # {} => \A i \in 1..d : Near(r.cen[j][i] * Cardinality(S), SumOver(S, [k \in S |-> op.x[k][i] * One]), 2 * Cardinality(S), 0)
                  (* no worse than its seeds *)
                  /\ SumSeq([k \in DOMAIN op.x |-> SumSeq([i \in 1..d |-> Mul(op.x[k][i] * One - r.cen[r.lab[k] + 1][i], op.x[k][i] * One - r.cen[r.lab[k] + 1][i])])]) <= Cost(op.x, r.seeds) * One + 64
(*---- Gaussian processes ---------------------------------------------------*)
(* hyper parameters: length scale and amplitude, fixed point; points are vectors of fixed point numbers *)
Kern(h, a, b) == LET q == SumSeq([i \in DOMAIN a |-> Mul(a[i] - b[i], a[i] - b[i])]) IN Mul(Mul(h.amp, h.amp), Exp(-Div(q, 2 * Mul(h.len, h.len))))
(* equal inputs count as one, with the mean of their targets and a share of the noise (0.001) *)
RECURSIVE Merge(_)
Merge(D) == IF D = <<>> THEN <<>>
            ELSE LET rest == Merge(SubSeq(D, 1, Len(D) - 1))
                     x == D[Len(D)].x
                     y == D[Len(D)].y
                 IN IF \E k \in DOMAIN rest : rest[k].x = x
                    THEN [k \in DOMAIN rest |-> IF rest[k].x = x THEN [rest[k] EXCEPT !.c = @ + 1, !.s = @ + y] ELSE rest[k]]
                    ELSE Append(rest, [x |-> x, s |-> y, c |-> 1])
(* Gaussian elimination on a positive definite matrix with any number of right hand sides *)
RECURSIVE Elim(_, _, _)
Elim(A, k, n) ==
  IF k > n THEN A
  ELSE Elim(TLCEval([i \in 1..n |-> IF i = k THEN A[k] ELSE LET f == Div(A[i][k], A[k][k]) IN [j \in DOMAIN A[i] |-> A[i][j] - Mul(f, A[k][j])]]), k + 1, n)
(* columns of the solution *)
Solve(K, B) == LET n == Len(K)
                   A == Elim(TLCEval([i \in 1..n |-> K[i] \o B[i]]), 1, n)
               IN TLCEval([i \in 1..n |-> [j \in 1..Len(B[1]) |-> Div(A[i][n + j], A[i][i])]])
Prior(h, T) == TLCEval([a \in DOMAIN T |-> [b \in DOMAIN T |-> Kern(h, T[a], T[b])]])
Posterior(o, T) ==
  LET D == Merge(o.data)
      h == o.h
      K == TLCEval([i \in DOMAIN D |-> [j \in DOMAIN D |-> Kern(h, D[i].x, D[j].x) + (IF i = j THEN 4 \div D[i].c ELSE 0)]])
      ks == TLCEval([i \in DOMAIN D |-> [t \in DOMAIN T |-> Kern(h, D[i].x, T[t])]])
      Z == Solve(K, [i \in DOMAIN D |-> <<D[i].s \div D[i].c - o.mean>> \o ks[i]])
  IN [m |-> TLCEval([t \in DOMAIN T |-> o.mean + SumSeq([i \in DOMAIN D |-> Mul(ks[i][t], Z[i][1])])]),
      c |-> TLCEval([a \in DOMAIN T |-> [b \in DOMAIN T |-> Kern(h, T[a], T[b]) - SumSeq([i \in DOMAIN D |-> Mul(ks[i][a], Z[i][b + 1])])]])]
RECURSIVE GridPts(_, _, _)
GridPts(lo, hi, st) ==
  IF lo = <<>> THEN <<<<>>>>
  ELSE LET n == ((hi[1] - lo[1]) + st[1] - 1) \div st[1]
           rest == GridPts(Tail(lo), Tail(hi), Tail(st))
           m == Len(rest)
       IN [q \in 1..(n * m) |-> <<lo[1] + ((q - 1) \div m) * st[1]>> \o rest[((q - 1) % m) + 1]]
GpStep(o, op) ==
  LET r == op.res
      T == IF op.op = "test" THEN op.t ELSE o.tx
      P == Posterior(o, T)
      Same == [ok |-> r.err = "", s |-> o]
  IN CASE op.op = "grid" -> [ok |-> r.err = "" /\ r.t = o.tx, s |-> o]
       [] op.op = "add" -> [ok |-> r.err = "", s |-> [o EXCEPT !.data = Append(@, [x |-> op.x, y |-> op.y])]]
       [] op.op = "addset" -> [ok |-> r.err = "", s |-> [o EXCEPT !.data = @ \o op.data]]
       [] op.op = "train" -> [ok |-> r.err = "", s |-> [o EXCEPT !.data = op.data]]
       [] op.op = "reset" -> [ok |-> r.err = "", s |-> [o EXCEPT !.data = <<>>]]
       [] op.op = "test" -> [ok |-> r.err = "" /\ Len(r.m) = Len(T) /\ (IF o.data = <<>> THEN o.mean # 0 \/ \A k \in DOMAIN r.m : r.m[k] = 0
                                                                       ELSE NearV(r.m, P.m, 40, 64) /\ NearM(r.c, P.c, 40)),
                             s |-> [o EXCEPT !.tx = T]]
       [] op.op = "draw" -> [ok |-> IF o.data = <<>> THEN TRUE
                                    ELSE r.err = "" /\ r.zero /\ NearV(r.y, [k \in DOMAIN P.m |-> P.m[k] + (IF k \in DOMAIN op.u THEN op.u[k] ELSE 0)], 40, 64) /\ NearM(r.c, P.c, 40),
                             s |-> o]
       [] OTHER -> Same
(*---- importance mixing ----------------------------------------------------*)
(* old and new densities of the things that may be drawn are whole numbers; draws are in 1/64, the forced refresh rate is f/8 *)
Kept(o, op) ==
  LET n == Len(op.pts)
      Full(k) == 8 * (n - k) <= Max2(8, n * op.f)
      RECURSIVE F(_, _)
      F(i, acc) == IF i > n THEN [acc |-> acc, used |-> n]
                   ELSE LET p == op.pts[i]
                            a2 == IF op.u[i] * 8 * o.old[p] < 64 * (8 - op.f) * o.new[p] THEN Append(acc, i - 1) ELSE acc
                        IN IF Full(Len(a2)) THEN [acc |-> a2, used |-> i] ELSE F(i + 1, a2)
  IN F(1, <<>>)
Fresh(o, op, k, used) ==
  LET n == Len(op.pts)
      RECURSIVE F(_, _)
      F(j, acc) == IF k + Len(acc) >= n \/ used + j \notin DOMAIN op.u \/ j \notin DOMAIN op.cand THEN acc
                   ELSE LET p == op.cand[j]
                            u == op.u[used + j]
                        IN F(j + 1, IF 8 * u < 64 * op.f \/ u * o.new[p] < 64 * (o.new[p] - o.old[p]) THEN Append(acc, p) ELSE acc)
  IN F(1, <<>>)
MixOk(o, op) == LET a == Kept(o, op)
                    b == Fresh(o, op, Len(a.acc), a.used)
                IN op.res.err = "" /\ op.res.keep = a.acc /\ op.res.fresh = b /\ Len(a.acc) + Len(b) = Len(op.pts)
(*---- Indian buffets -------------------------------------------------------*)
Col(M, j) == [i \in DOMAIN M |-> M[i][j]]
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == a = <<>> \/ a[1] < b[1] \/ (a[1] = b[1] /\ LexLeq(Tail(a), Tail(b)))
LeftOrdered(M, R) == /\ Len(R) = Len(M) /\ \A i \in DOMAIN M : Len(R[i]) = Len(M[1])
                     /\ \A j \in 1..(Len(M[1]) - 1) : LexLeq(Col(R, j + 1), Col(R, j))
                     /\ Bag([j \in 1..Len(M[1]) |-> Col(R, j)]) = Bag([j \in 1..Len(M[1]) |-> Col(M, j)])
Fact(n) == IF n = 1 THEN 1 ELSE IF n = 2 THEN 2 ELSE IF n = 3 THEN 6 ELSE 12     \* a common denominator of 1..n (n <= 4)
(* the least number above lambda + 2 sqrt(lambda) *)
Cut(alpha, n) == LET q == Fact(n)
                     p == alpha * SumSeq([k \in 1..n |-> q \div k])
                 IN CHOOSE m \in 1..200 : (m * q > p /\ (m * q - p) * (m * q - p) > 4 * p * q) /\ ((m - 1) * q <= p \/ ((m - 1) * q - p) * ((m - 1) * q - p) <= 4 * p * q)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
(* nu in quarters, draws in 1/64, every row of draws is one dish; half: every dish is tried half as often *)
Dishes(op) == LET k == Len(op.nu)
                  T(i, c) == LET st == Prod(SubSeq(op.nu, 1, i)) IN op.u[i][c] * Pow(4, i) * (IF op.half THEN 2 ELSE 1) < 64 * st
              IN TLCEval(SelectSeq([i \in 1..k |-> [c \in 1..op.n |-> IF T(i, c) THEN 1 ELSE 0]], LAMBDA col : \E c \in 1..op.n : col[c] = 1))
IbpOk(op) == LET D == Dishes(op) IN op.res.err = "" /\ op.res.asked = <<IF op.half THEN 2 * op.alpha ELSE op.alpha, 1, Cut(op.alpha, op.n)>>
                                     /\ op.res.rows = op.n /\ op.res.cols = D
(*---- adaptive resampling --------------------------------------------------*)
RECURSIVE Ins(_, _)
Ins(x, q) == IF q = <<>> THEN <<x>> ELSE IF x <= Head(q) THEN <<x>> \o q ELSE <<Head(q)>> \o Ins(x, Tail(q))
RECURSIVE Sorted(_)
Sorted(q) == IF q = <<>> THEN <<>> ELSE Ins(Head(q), Sorted(Tail(q)))
Median(q) == LET s == Sorted(q)
                 n == Len(q)
             IN IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE (s[n \div 2] + s[(n \div 2) + 1]) \div 2    \* whole multiples of 4 go in
Reps(o) == o.num \div o.den
Lower(o) == LET a == o.num * o.fd
                b == o.den * o.fn
            IN IF a <= b THEN [o EXCEPT !.num = 1, !.den = 1] ELSE [o EXCEPT !.num = a, !.den = b]
Raise(o) == LET a == o.num * o.fn
                b == o.den * o.fd
            IN IF o.max > 0 /\ a > o.max * b THEN [o EXCEPT !.num = o.max, !.den = 1] ELSE [o EXCEPT !.num = a, !.den = b]
Val(op, a, n) == Median([k \in 1..n |-> op.f[a + k]])
Resample(o, op) ==
  LET n == Reps(o)
      r1 == Val(op, 0, n)
      due == o.t > 0 /\ o.t % o.batch = 0
      r2 == Val(op, n, n)
      rc == Cardinality({k \in 2..o.batch : (o.rec[k] - r1) * (o.rec[k] - r2) < 0})
      o2 == IF ~due THEN o ELSE IF 4 * rc >= o.thr * (o.batch - 1) THEN Raise(o) ELSE IF rc = 0 THEN Lower(o) ELSE o
      y == IF due THEN (r1 + r2) \div 2 ELSE r1
  IN [y |-> y, used |-> IF due THEN 2 * n ELSE n, s |-> [o2 EXCEPT !.rec[(o.t % o.batch) + 1] = y, !.t = @ + 1]]
(*---- mixtures of Gaussians ------------------------------------------------*)
Wt(o) == [g \in DOMAIN o.al |-> Sig(o.al[g])]
Phi(o, g, x) == LET z == Div(x - o.mu[g], o.sg[g]) IN IF Abs(z) >= 4 * One THEN 0 ELSE Div(Exp(-(Mul(z, z) \div 2)) * 16, o.sg[g])     \* times 16 * 2.51
MogLearn(o, op) ==
  LET G == DOMAIN o.al
      w == TLCEval(Wt(o))
      ph == TLCEval([g \in G |-> Phi(o, g, op.x)])
      tot == SumSeq([g \in G |-> Mul(w[g], ph[g])])
      nm == TLCEval([g \in G |-> IF tot < 128 THEN 0 ELSE Div(ph[g], tot)])
      b1 == IF op.base THEN (99 * o.base + op.y) \div 100 ELSE o.base
      best == Max2(o.best, op.y)
      f == IF best - b1 < 256 THEN 0 ELSE Max2(-One, Div(op.y - b1, best - b1))
      a1 == TLCEval([g \in G |-> o.al[g] + Mul(Mul(o.ra \div Len(o.al), Mul(w[g], One - w[g])), Mul(f, nm[g]))])
      s1 == SumSeq([g \in G |-> Sig(a1[g])])
      w2 == TLCEval([g \in G |-> Div(Sig(a1[g]), s1)])
      m2 == TLCEval([g \in G |-> o.mu[g] + Mul(Mul(o.rm, f), Mul(Mul(op.x - o.mu[g], w2[g]), nm[g]))])
      s2 == TLCEval([g \in G |-> IF f > 0 THEN o.sg[g] + Mul(Mul(o.rs, f), Mul(Mul(Div(Mul(op.x - m2[g], op.x - m2[g]), o.sg[g]) - o.sg[g], w2[g]), nm[g])) ELSE o.sg[g]])
  IN [judge |-> tot >= 128 /\ (\A g \in G : o.sg[g] >= 1024 /\ (nm[g] <= 8 * One)) /\ best - b1 >= 256, w |-> w2, mu |-> m2, sg |-> s2, base |-> b1, best |-> best]
MogDraw(o, u) == LET w == Wt(o) IN {g \in DOMAIN w : u < SumSeq(SubSeq(w, 1, g)) + 12 /\ (g = 1 \/ u >= SumSeq(SubSeq(w, 1, g - 1)) - 12)}
MogStep(o, op) ==
  LET r == op.res IN
  IF r.err # "" THEN [ok |-> FALSE, s |-> o]
  ELSE CASE op.op = "learn" ->
              LET L == MogLearn(o, op)
              IN IF ~L.judge THEN [ok |-> TRUE, s |-> [o EXCEPT !.lost = TRUE]]
                 ELSE [ok |-> NearV(r.w, L.w, 24, 64) /\ NearV(Sub(r.mu, o.mu), Sub(L.mu, o.mu), 96, 20) /\ NearV(Sub(r.sg, o.sg), Sub(L.sg, o.sg), 96, 20) /\ Near(SumSeq(r.w), One, 8, 0) /\ Near(r.base, L.base, 4, 64) /\ Near(r.best, L.best, 2, 0),
                       s |-> [o EXCEPT !.al = r.al, !.mu = r.mu, !.sg = r.sg, !.base = r.base, !.best = r.best]]
         [] op.op = "draw" -> [ok |-> r.y = r.back /\ \E g \in MogDraw(o, op.u) : Near(r.mu, o.mu[g], 16, 0) /\ Near(r.sg, o.sg[g], 16, 0), s |-> o]
         [] op.op = "anywhere" -> [ok |-> Near(r.y, 40 * op.u - 20 * One, 8, 0), s |-> o]
         [] op.op = "dens" -> [ok |-> Near(r.y * 40, (SumSeq([g \in DOMAIN o.al |-> Mul(Sig(o.al[g]), Phi(o, g, op.x))])), 200, 24), s |-> o]
         [] OTHER -> [ok |-> FALSE, s |-> o]
(*---- universal search -----------------------------------------------------*)
(* programs with their complexities, simplest first; phase m runs every program of a complexity below m; script: what the runs say *)
Phase(P, m) == SelectSeq([k \in DOMAIN P |-> k], LAMBDA k : P[k].c < m)
RECURSIVE Runs(_, _, _, _)
Runs(P, m, acc, left) ==
  IF m > 12 THEN acc
  ELSE LET F == Phase(P, m)
           RECURSIVE Go(_, _)
           Go(i, a) == IF i > Len(F) THEN [a |-> a, done |-> FALSE]
                       ELSE LET k == F[i]
                                seen == Cardinality({j \in DOMAIN a : a[j] = k}) + 1
                            IN IF P[k].after > 0 /\ seen >= P[k].after THEN [a |-> Append(a, k), done |-> TRUE] ELSE Go(i + 1, Append(a, k))
           g == Go(1, acc)
       IN IF g.done THEN g.a ELSE Runs(P, m + 1, g.a, left)
(*---- keyword arguments ----------------------------------------------------*)
Has(q, n) == \E k \in DOMAIN q : q[k].n = n
Get(q, n) == q[CHOOSE k \in DOMAIN q : q[k].n = n].v
KwAdd(o, op) ==
  LET nm == IF op.private THEN "_" \o op.n ELSE op.n
      set(v) == [o EXCEPT !.at = Append(SelectSeq(@, LAMBDA e : e.n # nm), [n |-> nm, v |-> v])]
  IN IF op.mandatory /\ op.dflt >= 0 THEN [err |-> "AssertionError", s |-> o]
     ELSE IF Has(o.kw, op.n) THEN [err |-> "", s |-> set(Get(o.kw, op.n))]
     ELSE IF op.dflt >= 0 THEN [err |-> "", s |-> set(op.dflt)]
     ELSE IF op.mandatory THEN [err |-> "KeyError", s |-> o] ELSE [err |-> "", s |-> o]
Pairs(q) == {<<q[k].n, q[k].v>> : k \in DOMAIN q}
(*---- the notebook of experiments ------------------------------------------*)
(* two notebooks; results are whole numbers, averages fixed point *)
Avg(q) == (SumSeq(q) * One) \div Len(q)
NoteStep(o, op) ==
  LET r == op.res
      k == op.k
  IN CASE op.op = "print" -> [ok |-> r.err = "", s |-> [o EXCEPT !.rl[k] = Append(@, IF o.opt[k] THEN Avg(op.v) ELSE op.v[1] * One)]]
       [] op.op = "close" -> [ok |-> r.err = "", s |-> [o EXCEPT !.rll[k] = Append(@, o.rl[k]), !.rl[k] = <<>>]]
       [] op.op = "show" -> LET R == o.rll[k]
                                n == Len(R)
                                m == Len(R[1])
                                mean == TLCEval([i \in 1..m |-> SumSeq([e \in 1..n |-> R[e][i]]) \div n])
                                var == TLCEval([i \in 1..m |-> SumSeq([e \in 1..n |-> Mul(R[e][i] - mean[i], R[e][i] - mean[i])]) \div n])
                            IN [ok |-> r.err = "" /\ NearV(r.y, mean, 4, 0) /\ Len(r.d) = m /\ (\A i \in 1..m : Near(Mul(r.d[i], r.d[i]), var[i], 64, 64)) /\ r.x = [i \in 1..m |-> i * o.per[k]],
                                s |-> [o EXCEPT !.shown = @ \cup {k}]]
       [] op.op = "save" -> [ok |-> r.err = "" /\ r.back = op.v, s |-> o]
       [] OTHER -> [ok |-> FALSE, s |-> o]
(*---- the system -----------------------------------------------------------*)
AInit0(cfg) ==
  LET z == [kind |-> cfg.kind, lost |-> FALSE, ops |-> {}, n |-> 0, size |-> 0] IN
  CASE cfg.kind = "gp" -> [z EXCEPT !.lost = FALSE] @@ [h |-> cfg.h, mean |-> cfg.mean, data |-> <<>>, tx |-> GridPts(cfg.lo, cfg.hi, cfg.st)]
    [] cfg.kind = "mix" -> z @@ [old |-> cfg.old, new |-> cfg.new]
    [] cfg.kind = "resample" -> z @@ [batch |-> cfg.batch, thr |-> cfg.thr, fn |-> cfg.fn, fd |-> cfg.fd, max |-> cfg.max, num |-> 1, den |-> 1, t |-> 0, rec |-> [k \in 1..cfg.batch |-> 0]]
    [] cfg.kind = "mog" -> LET k == cfg.k IN
         z @@ [al |-> [g \in 1..k |-> -Ln((k - 1) * One)], mu |-> [g \in 1..k |-> (40 * One * (g - 1)) \div (k - 1) - 20 * One], sg |-> [g \in 1..k |-> (40 * 2896) \div (k - 1)],
               base |-> 0, best |-> 0, ra |-> cfg.ra, rm |-> cfg.rm, rs |-> cfg.rs]
    [] cfg.kind = "kw" -> z @@ [kw |-> cfg.kw, at |-> <<>>]
    [] cfg.kind = "notes" -> z @@ [opt |-> cfg.opt, per |-> cfg.per, rl |-> <<<<>>, <<>>>>, rll |-> <<<<>>, <<>>>>, shown |-> {}]
    [] OTHER -> z
Stay(o, b) == [ok |-> b, s |-> o]
Judge(o, op) ==
  CASE o.lost -> Stay(o, TRUE)
    [] op.op = "pca" -> Stay(o, PcaOk(op))
    [] op.op = "ppca" -> Stay(o, PpcaOk(op))
    [] op.op = "nofunc" -> Stay(o, op.res.err = "ValueError")
    [] op.op = "kmeans" -> Stay(o, SeedsOk(op) /\ MeansOk(op))
    [] o.kind = "gp" -> GpStep(o, op)
    [] op.op = "mix" -> Stay(o, MixOk(o, op))
    [] op.op = "order" -> Stay(o, op.res.err = "" /\ LeftOrdered(op.m, op.res.m))
    [] op.op = "buffet" -> Stay(o, IbpOk(op))
    [] op.op = "sample" -> LET R == Resample(o, op) IN [ok |-> op.res.err = "" /\ op.res.y = R.y /\ op.res.used = R.used, s |-> R.s]
    [] o.kind = "mog" -> MogStep(o, op)
    [] op.op = "levin" -> Stay(o, op.res.err = "" /\ op.res.runs = Runs(op.p, 1, <<>>, 0))
    [] op.op = "kwadd" -> LET K == KwAdd(o, op) IN [ok |-> op.res.err = K.err /\ Pairs(op.res.at) = Pairs(K.s.at), s |-> K.s]
    [] o.kind = "notes" -> NoteStep(o, op)
    [] OTHER -> Stay(o, FALSE)
ADo(o, op) ==
  LET j == Judge(o, op)
  IN [s |-> j.s, bad |-> IF j.ok THEN {} ELSE IF op.res.err # "" THEN {op.op \o " raised " \o op.res.err} ELSE {"the outcome of " \o op.op}]
(*---- exploration ----------------------------------------------------------*)
AOps(o) == IF o.n >= o.size THEN {}
           ELSE {op \in o.ops : /\ ("k" \in DOMAIN op /\ o.kind = "notes") => op.k \notin o.shown /\ (op.op = "show" => Len(o.rll[op.k]) > 0 /\ \A e \in DOMAIN o.rll[op.k] : Len(o.rll[op.k][e]) = Len(o.rll[op.k][1]) /\ o.rll[op.k][e] # <<>>)
                                /\ (op.op = "draw" /\ o.kind = "gp") => o.data # <<>>}
ANext0(o0, op) ==
  LET o == [o0 EXCEPT !.n = @ + 1] IN
  CASE o.kind = "gp" /\ op.op = "add" -> [o EXCEPT !.data = Append(@, [x |-> op.x, y |-> op.y])]
    [] o.kind = "gp" /\ op.op = "addset" -> [o EXCEPT !.data = @ \o op.data]
    [] o.kind = "gp" /\ op.op = "train" -> [o EXCEPT !.data = op.data]
    [] o.kind = "gp" /\ op.op = "reset" -> [o EXCEPT !.data = <<>>]
    [] o.kind = "gp" /\ op.op = "test" -> [o EXCEPT !.tx = op.t]
    [] op.op = "sample" -> Resample(o, op).s
    [] o.kind = "mog" /\ op.op = "learn" -> LET L == MogLearn(o, op) IN IF ~L.judge THEN o ELSE [o EXCEPT !.al = [g \in DOMAIN @ |-> LET q == Div(One, L.w[g]) - One IN IF q >= One THEN -Ln(q) ELSE Ln(Div(One, q))], !.mu = L.mu, !.sg = L.sg, !.base = L.base, !.best = L.best]
    [] op.op = "kwadd" -> KwAdd(o, op).s
    [] o.kind = "notes" /\ op.op = "print" -> [o EXCEPT !.rl[op.k] = Append(@, IF o.opt[op.k] THEN Avg(op.v) ELSE op.v[1] * One)]
    [] o.kind = "notes" /\ op.op = "close" -> [o EXCEPT !.rll[op.k] = Append(@, o.rl[op.k]), !.rl[op.k] = <<>>]
    [] o.kind = "notes" /\ op.op = "show" -> [o EXCEPT !.shown = @ \cup {op.k}]
    [] OTHER -> o
=============================================================================
