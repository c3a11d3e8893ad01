----------------------------- MODULE MCAnalysis -----------------------------
EXTENDS Analysis
VARIABLES gCfg, gState, gHist
CONSTANTS SIZE
P1(x, y) == [x |-> <<x * One>>, y |-> y * 1024]
T1 == <<<<0>>, <<2048>>, <<-6144>>>>
GpOps == {[op |-> "grid"], [op |-> "reset"], [op |-> "draw", u |-> <<1024, -512>>], [op |-> "test", t |-> T1], [op |-> "test", t |-> <<<<8192>>>>]} \cup
         {[op |-> "add", x |-> P1(x, y).x, y |-> P1(x, y).y] : x \in {0, 2}, y \in {-3, 5}} \cup {[op |-> s, data |-> <<P1(-2, 1), P1(0, 4)>>] : s \in {"addset", "train"}}
X2 == {<<<<0, 0>>, <<2, 1>>, <<-1, 3>>>>, <<<<3, 1>>, <<-3, -1>>, <<1, 1>>, <<2, 0>>>>, <<<<0, 1>>, <<1, 0>>, <<2, 3>>, <<-2, 1>>, <<3, 3>>>>}
X1 == {<<<<1>>, <<3>>, <<-2>>>>}
X3 == {<<<<1, 0, 2>>, <<3, -1, 0>>, <<-2, 2, 1>>, <<0, 3, 3>>>>}
Us == {<<0, 63, 20, 20, 10, 60, 5, 30>>, <<60, 60, 60, 1, 2, 3, 4, 5>>, <<16, 8, 40, 33, 0, 0, 0, 0>>}
Ms == {<<<<0, 1, 1>>, <<1, 1, 0>>>>, <<<<1, 0, 1, 0>>, <<0, 0, 1, 1>>, <<1, 0, 0, 1>>>>, <<<<1>>, <<0>>>>}
B(al, n, half, u, nu) == [op |-> "buffet", alpha |-> al, n |-> n, half |-> half, nu |-> [k \in 1..Cut(al, n) |-> nu[((k - 1) % Len(nu)) + 1]], u |-> [k \in 1..Cut(al, n) |-> [c \in 1..n |-> u[(((k * n) + c) % Len(u)) + 1]]]]
Fs == {<<0, 4, 8, 12, 0, 4, 8, 12, 16>>, <<8, 0, 8, 0, 8, 0, 8, 0, 8>>, <<-4, -4, -4, -4, 20, 20, 20, 20, 20>>}
F99(f) == [k \in 1..99 |-> f[((k - 1) % 9) + 1]]
Cfgs == {[kind |-> "gp", h |-> [len |-> 4096 \div d, amp |-> a], mean |-> m, lo |-> <<-One>>, hi |-> <<One + 1>>, st |-> <<One>>, ops |-> GpOps] : d \in {1, 2}, a \in {4096, 8192}, m \in {0, 2048}} \cup
        {[kind |-> "data", ops |-> {[op |-> o, x |-> x, dim |-> k] : o \in {"pca", "ppca"}, x \in X2 \cup X1 \cup X3, k \in 1..2} \cup {[op |-> "kmeans", x |-> x, k |-> k, first |-> f] : x \in X2, k \in 1..3, f \in 0..2} \cup {[op |-> "nofunc"]}]} \cup
        {[kind |-> "mix", old |-> <<1, 4, 2, 8, 1>>, new |-> <<2, 1, 2, 4, 8>>, ops |-> {[op |-> "mix", pts |-> p, f |-> f, u |-> u, cand |-> <<5, 1, 2, 3, 5, 5, 5, 5>>] : p \in {<<1, 2, 3, 4>>, <<5, 5>>, <<2>>}, f \in {0, 1, 4}, u \in Us}]} \cup
        {[kind |-> "ibp", ops |-> {[op |-> "order", m |-> m] : m \in Ms} \cup {B(al, n, h, u, nu) : al \in 1..2, n \in 1..3, h \in BOOLEAN, u \in {<<1, 40, 20>>, <<63, 5, 0, 33, 2>>}, nu \in {<<3, 2, 4>>, <<4, 4, 1>>}}]} \cup
        {[kind |-> "resample", batch |-> b, thr |-> t, fn |-> q[1], fd |-> q[2], max |-> q[3], ops |-> {[op |-> "sample", f |-> F99(f)] : f \in Fs}] : b \in 2..3, t \in 1..2, q \in {<<3, 2, 0>>, <<2, 1, 3>>}} \cup
        {[kind |-> "mog", k |-> k, typ |-> ty, ra |-> 8192, rm |-> 2048, rs |-> 1024, ops |-> {[op |-> "learn", x |-> x, y |-> y, base |-> TRUE] : x \in {0, -40960, 61440}, y \in {4096, -2048, 8192}} \cup {[op |-> "draw", u |-> u] : u \in {100, 2000, 3900}} \cup {[op |-> "dens", x |-> 8192]}] : k \in 2..3, ty \in 1..2} \cup
        {[kind |-> "levin", ops |-> {[op |-> "levin", p |-> [k \in 1..Len(c) |-> [c |-> c[k], after |-> IF k = w THEN a ELSE 0]]] : c \in {<<0, 1, 1>>, <<2, 2, 5>>, <<0, 0, 3>>}, w \in 1..3, a \in 1..2}]} \cup
        {[kind |-> "kw", kw |-> k, ops |-> {[op |-> "kwadd", n |-> n, private |-> p, mandatory |-> m, dflt |-> d] : n \in {"a", "b"}, p \in BOOLEAN, m \in BOOLEAN, d \in {-1, 7}}] : k \in {<<>>, <<[n |-> "a", v |-> 1]>>, <<[n |-> "b", v |-> 2], [n |-> "a", v |-> 3]>>}} \cup
        {[kind |-> "notes", opt |-> o, per |-> <<2, 6>>, ops |-> {[op |-> "print", k |-> k, v |-> v] : k \in 1..2, v \in {<<1, 3>>, <<5, 5>>}} \cup {[op |-> t, k |-> k] : k \in 1..2, t \in {"close", "show"}} \cup {[op |-> "save", k |-> 1, what |-> w, v |-> <<3, 1>>] : w \in 0..1}] : o \in {<<TRUE, FALSE>>}}
Start0(c) == [AInit0(c) EXCEPT !.ops = c.ops, !.size = SIZE]
INSTANCE GenBase WITH Init0 <- Start0, Ops <- AOps, Next0 <- ANext0
(* the process passes close to what it was trained on, is uncertain nowhere beyond its prior, and nowhere certain beyond the noise *)
GpInv == gState.kind = "gp" /\ gState.data # <<>> =>
  LET D == Merge(gState.data)
      T == [k \in DOMAIN D |-> D[k].x]
      P == Posterior(gState, T)
      Q == Posterior(gState, <<<<3 * One>>, <<-One>>>>)
  IN /\ \A k \in DOMAIN D : Near(P.m[k], D[k].s \div D[k].c, 40, 64) /\ P.c[k][k] <= 24 /\ P.c[k][k] >= -12
     /\ \A k \in 1..2 : Q.c[k][k] <= Mul(gState.h.amp, gState.h.amp) + 12 /\ Near(Q.c[1][2], Q.c[2][1], 12, 0)
(* the seeds chosen greedily never raise the cost *)
SeedInv == gState.kind = "data" => \A X \in X2 : \A f \in DOMAIN X : \E i \in DOMAIN X : Greedy(X, <<X[f], X[i]>>) /\ Cost(X, <<X[f], X[i]>>) <= Cost(X, <<X[f]>>)
(* the standard axes are components of data lying along them, and no other are *)
AxisInv == gState.kind = "data" => LET X == <<<<3, 1>>, <<-3, 1>>, <<3, -1>>, <<-3, -1>>>>
                                   IN IsPca(X, 1, <<<<One, 0>>>>) /\ ~IsPca(X, 1, <<<<0, One>>>>) /\ ~IsPca(X, 1, <<<<2896, 2896>>>>) /\ IsPca(X, 2, <<<<0, One>>, <<-One, 0>>>>)
(* nothing is lost or doubled, and when nothing changed (and no refresh is forced) all but one sample are kept *)
MixInv == gState.kind = "mix" => \A u \in Us : \A f \in {0, 1, 4} :
  LET z == [gState EXCEPT !.old = gState.new]
      op == [pts |-> <<1, 2, 3, 4>>, f |-> f, u |-> u, cand |-> <<>>]
      a == Kept(gState, op).acc
  IN Cardinality({a[k] : k \in DOMAIN a}) = Len(a) /\ Len(a) <= 3 /\ (f = 0 => Len(Kept(z, op).acc) = 3)
ResInv == gState.kind = "resample" => gState.num >= gState.den /\ (gState.max > 0 => gState.num <= gState.max * gState.den)
(* the weights of the mixture are a distribution *)
MogInv == gState.kind = "mog" => Near(SumSeq([g \in DOMAIN gState.al |-> Sig(gState.al[g])]), One, 16, 0) /\ \A g \in DOMAIN gState.sg : gState.sg[g] > 0
LevinInv == gState.kind = "levin" => \A op \in gState.ops : LET r == Runs(op.p, 1, <<>>, 0) IN r # <<>> /\ op.p[r[Len(r)]].after > 0
=============================================================================
