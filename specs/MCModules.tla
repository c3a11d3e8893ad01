----------------------------- MODULE MCModules -----------------------------
EXTENDS Modules
VARIABLES gCfg, gState, gHist
B(k, n) == [k |-> k, n |-> n, peep |-> FALSE, nd |-> 1, len |-> 2, rows |-> 2, cols |-> 2, wrap |-> "ff", p0 |-> <<>>, auto |-> FALSE, on |-> FALSE, one |-> TRUE]
P(n) == [k \in 1..n |-> ((k * 1300) % 5000) - 2200]
Cfgs == {B("lin", 2), B("sig", 2), B("tanh", 2), B("relu", 2), B("ssign", 2), B("mul", 2), B("gate", 2), B("dgate", 1), B("switch", 2),
         [B("lstm", 1) EXCEPT !.wrap = "rec"], [B("lstm", 1) EXCEPT !.wrap = "rec", !.peep = TRUE, !.p0 = P(3)],
         [B("lstm", 2) EXCEPT !.wrap = "rec", !.peep = TRUE, !.p0 = P(6)],
         [B("mdlstm", 1) EXCEPT !.nd = 2], [B("mdlstm", 1) EXCEPT !.nd = 2, !.peep = TRUE, !.p0 = P(4)],
         [B("mdlstm", 2) EXCEPT !.nd = 1, !.peep = TRUE, !.p0 = P(6)]}
INSTANCE GenBase
Fresh == gState.hist = <<>> /\ gState.d = Zero(PDim(gState.c))
NT == IF gState.c.wrap = "rec" THEN 3 ELSE 1
X(t, m) == [k \in 1..InDim(gState.c) |-> (((k * 7 + t * 5 + m * 3) % 11) - 5) * 900 + 333]
E(t, m) == [k \in 1..OutDim(gState.c) |-> (((k * 5 + t * 3 + m) % 7) - 3) * 1000 + 500]
GradInv == Fresh => \A m \in 1..3 : GradOk(gState.c, [t \in 1..NT |-> X(t, m)], [t \in 1..NT |-> E(t, m)])
SumInv == gState.hist # <<>> /\ gState.c.k \in {"dgate", "switch"} =>
             LET y == gState.hist[Len(gState.hist)].y
                 n == gState.c.n
             IN gState.c.k = "switch" => \A j \in 1..n : y[j] + y[n + j] = One
TimeInv == gState.bt <= Len(gState.hist)
=============================================================================
