----------------------------- MODULE MCDensity -----------------------------
EXTENDS Density
VARIABLES gCfg, gState, gHist
CONSTANTS SIZE
C(gauss, iters, cost) == [gauss |-> gauss, iters |-> iters, switch |-> 1, mm1 |-> 2048, mm2 |-> 3584, rw |-> 1024, rh |-> 2048, rv |-> 512, cost |-> cost, ib |-> 1024, batch |-> 99]
Lots(n) == [k \in 1..64 |-> (k * n) % 4096]
Rows2 == {<<<<4096, 0>>>>, <<<<0, 4096>>, <<4096, 4096>>>>}
RbmOps(nh) == {[op |-> "train", batches |-> b, draws |-> d] : b \in {<<r>> : r \in Rows2} \cup {<<<<<<4096, 0>>>>, <<<<0, 0>>>>>>}, d \in {<<>>, Lots(1117)}} \cup
              {[op |-> "rec", x |-> [k \in 1..nh |-> 4096]], [op |-> "act", x |-> <<4096, -2048>>], [op |-> "inv", x |-> [k \in 1..nh |-> 2048 * k], b |-> <<1024, -1024>>]}
DbnOps == {[op |-> "train", epochs |-> e, draws |-> d] : e \in {1, 2}, d \in {<<>>, Lots(1117)}} \cup
          {[op |-> "act", x |-> <<4096, 0>>], [op |-> "piece", k |-> 1, x |-> <<4096, 4096>>], [op |-> "halve"]}
Ts == {<<0>>, <<4096>>, <<-6144>>}
MixOps(n) == {[op |-> "epoch", data |-> <<[x |-> <<x>>, t |-> [k \in 1..n |-> t[1] * k]]>>] : x \in {4096, -2048}, t \in Ts} \cup
             {[op |-> "epoch", data |-> <<[x |-> <<4096>>, t |-> [k \in 1..n |-> 0]], [x |-> <<-4096>>, t |-> [k \in 1..n |-> 4096]]>>], [op |-> "act", x |-> <<4096>>]}
Mix(K, n, rp) == [kind |-> "mix", K |-> K, n |-> n, rate |-> 256, rprop |-> rp, W |-> [k \in 1..(K * (n + 2)) |-> ((k * 1111) % 4096) - 2048], b |-> [k \in 1..(K * (n + 2)) |-> ((k * 777) % 2048) - 1024], ops |-> MixOps(n)]
Cfgs == {[kind |-> "rbm", c |-> C(g, i, co), W |-> SubSeq(<<1024, -2048, 3072, 512, -512, 2048>>, 1, 2 * nh), hb |-> SubSeq(<<512, -1024, 256>>, 1, nh), vb |-> <<0, 1024>>, ops |-> RbmOps(nh)] : g \in BOOLEAN, i \in {1, 3}, co \in {0, 256}, nh \in {1, 3}} \cup
        {[kind |-> "dbn", c |-> C(g, 2, 256), rows |-> <<<<4096, 0>>, <<0, 4096>>, <<4096, 4096>>>>,
          layers |-> <<[W |-> <<1024, -2048, 512, 512>>, hb |-> <<0, 512>>], [W |-> <<2048, -1024>>, hb |-> <<256>>]>>, ops |-> DbnOps] : g \in BOOLEAN} \cup
        {Mix(K, n, rp) : K \in 1..2, n \in 1..2, rp \in {FALSE}}
Start0(c) == [DInit0(c) EXCEPT !.ops = c.ops, !.size = SIZE]
INSTANCE GenBase WITH Init0 <- Start0, Ops <- DOps, Next0 <- DNext0
(* turning a machine around twice gives it back *)
TurnInv == gState.kind = "rbm" => LET m == gState.m IN Transpose(Transpose(m.W, Len(m.hb), Len(m.vb)), Len(m.vb), Len(m.hb)) = m.W
(* what a machine makes of the data and of its reconstruction are probabilities *)
ProbInv == gState.kind = "rbm" => \A x \in {<<0, 0>>, <<4096, -8192>>} : LET h == Hidden(gState.m, x) IN (\A j \in DOMAIN h : h[j] \in 0..One) /\ \A i \in 1..2 : Visible(gState.m, h)[i] \in 0..One
(* contrastive divergence without a learning rate changes nothing, and the order of the rows of a batch does not matter *)
Frozen(c) == [c EXCEPT !.rw = 0, !.rh = 0, !.rv = 0]
OrderInv == gState.kind = "rbm" =>
  LET m == gState.m
      c == [gState.c EXCEPT !.iters = 1]
      z == [m EXCEPT !.tie = FALSE]
      all == [k \in 1..9 |-> 0]
      u == Iter(m, c, <<<<4096, 0>>, <<0, 2048>>>>, all, 0, Start(m), 0)
      v == Iter(m, c, <<<<0, 2048>>, <<4096, 0>>>>, all, 0, Start(m), 0)
  IN [Iter(m, Frozen(c), <<<<4096, 0>>>>, all, 0, Start(m), 0) EXCEPT !.tie = FALSE] = z /\ (u.W = v.W /\ u.hb = v.hb /\ u.vb = v.vb)
(* the downhill direction is that of the likelihood: a finite difference along every unit *)
Tgt == {<<0, 1024>>, <<4096, -2048>>}
SlopeInv == gState.kind = "mix" =>
  LET o == gState
      h == 512
  IN \A tt \in Tgt : LET t == SubSeq(tt, 1, o.nd)
                         a == Units(o, <<2048>>)
                         d == Downhill(o, a, t)
                     IN \A k \in DOMAIN a : Abs(a[k]) <= 8192 /\ Abs(d[k]) <= 16384 =>
                          Near((NLL(o, [a EXCEPT ![k] = @ - h], t) - NLL(o, [a EXCEPT ![k] = @ + h], t)) * 4, d[k], 160, 16)
(* the mixing coefficients are a distribution; the coefficients' slopes cancel out *)
MixInv == gState.kind = "mix" => LET o == gState
                                     y == Outputs(o, Units(o, <<4096>>))
                                 IN Near(SumSeq(SubSeq(y, 1, o.K)), One, 4, 0) /\ Near(SumSeq(SubSeq(Downhill(o, Units(o, <<4096>>), SubSeq(<<0, 0>>, 1, o.nd)), 1, o.K)), 0, 4, 0)
=============================================================================
