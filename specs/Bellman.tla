------------------------------ MODULE Bellman ------------------------------
(* Model-based reinforcement learning: evaluation of a policy, one-step look-ahead, greedy policies and policy iteration.
   cfg: n states, m actions, Ts[a][s][s2] in sixteenths, R small integers, gamma in sixteenths.
   Policies P[s][a] and values are fixed point, U = 65536.
   state: pi - the running policy iteration: policy pol (sets of actions), left (iterations left) *)
EXTENDS Fixed, FiniteSets
U == 65536
States(c) == 1..c.n
Actions(c) == 1..c.m
Scg(c, v) == (v \div 16) * c.gamma + ((v % 16) * c.gamma) \div 16
(* expected value of entering the next state: sum of T (R + gamma V) *)
Back(c, T, V) == [s \in States(c) |-> SumSeq([z \in States(c) |-> (T[s][z] * (U * c.R[z] + Scg(c, V[z]))) \div 16])]
LookA(c, V, s, a) == SumSeq([z \in States(c) |-> (c.Ts[a][s][z] * (U * c.R[z] + Scg(c, V[z]))) \div 16])
(* the same without rounding, for values that are multiples of a quarter (v4 quarters), in 1024ths *)
Exact(c, v4, s, a) == SumSeq([z \in States(c) |-> c.Ts[a][s][z] * (64 * c.R[z] + c.gamma * v4[z])])
ArgMax(S, f(_)) == {x \in S : \A y \in S : f(y) <= f(x)}
Greedy(c, v4) == [s \in States(c) |-> LET f(a) == Exact(c, v4, s, a) IN ArgMax(Actions(c), f)]
Prob(S, a) == IF a \in S THEN U \div Cardinality(S) ELSE 0
PolNear(c, P, G) == \A s \in States(c) : \A a \in Actions(c) : Abs(P[s][a] - Prob(G[s], a)) <= 1
MulU(p, t) == ((p \div 16) * t) + ((p % 16) * t) \div 16     \* probability times sixteenths
Collapse(c, P) == [s \in States(c) |-> [z \in States(c) |-> SumSeq([a \in Actions(c) |-> MulU(P[s][a], c.Ts[a][s][z])])]]
TNear(c, T, W) == \A s \in States(c) : \A z \in States(c) : Abs(T[s][z] - W[s][z]) <= 2 + c.m
RowsSum(c, P) == \A s \in States(c) : Abs(SumSeq(P[s]) - U) <= c.m
GPol(c, G) == [s \in States(c) |-> [a \in Actions(c) |-> Prob(G[s], a)]]
(* values V at U under transitions T at U *)
MulUU(a, b) == LET ah == a \div 256
                   al == a % 256
                   bh == b \div 256
                   bl == b % 256
               IN ah * bh + (ah * bl + al * bh) \div 256
BackU(c, T, V) == [s \in States(c) |-> SumSeq([z \in States(c) |-> MulUU(U * c.R[z] + Scg(c, V[z]), T[s][z])])]
Resid(c, T, V) == LET w == BackU(c, T, V) IN TLCEval([s \in States(c) |-> V[s] - w[s]])
Small(c, r, tol) == \A s \in DOMAIN r : Abs(r[s]) <= tol
(* residual of Q-values under policy P *)
QV(c, P, Q) == TLCEval([s \in States(c) |-> SumSeq([a \in Actions(c) |-> MulUU(Q[s][a], P[s][a])])])
QResid(c, P, Q) == LET V == QV(c, P, Q) IN \A s \in States(c) : \A a \in Actions(c) : Abs(Q[s][a] - LookA(c, V, s, a)) <= 160
(* P only uses actions that are best under V *)
OptNear(c, P, V) == \A s \in States(c) : \A a \in Actions(c) :
                      P[s][a] <= 1 \/ \A d \in Actions(c) : LookA(c, V, s, d) <= LookA(c, V, s, a) + 256
If(b, x) == IF b THEN {} ELSE {x}
BInit(c) == [c |-> c, pol |-> GPol(c, [s \in States(c) |-> Actions(c)]), left |-> 0, on |-> FALSE, G |-> <<>>, n |-> 0, k |-> 0]
BDo(s, b) ==
  LET c == s.c
      same == If(b.same, "the model is left alone")
  IN
  IF b.err # "" THEN [s |-> s, bad |-> {"raised " \o b.err}] ELSE
  CASE b.op = "collapse" -> [s |-> s, bad |-> same \cup If(TNear(c, b.T, Collapse(c, b.P)), "collapsed transitions")]
    [] b.op = "random" -> [s |-> s, bad |-> same \cup If(PolNear(c, b.P, [z \in States(c) |-> Actions(c)]), "each action is equally likely") \cup If(TNear(c, b.T, Collapse(c, b.P)), "collapsed transitions")]
    [] b.op = "randomdet" -> [s |-> s, bad |-> same \cup If(RowsSum(c, b.P) /\ \A z \in States(c) : \A a \in Actions(c) : b.P[z][a] \in {0, U}, "one action for each state")
                                                \cup If(TNear(c, b.T, Collapse(c, b.P)), "collapsed transitions")]
    [] b.op = "values" -> [s |-> s, bad |-> same \cup If(Small(c, Resid(c, Collapse(c, b.P), b.V), 96), "Bellman equation")]
    [] b.op = "qvalues" -> [s |-> s, bad |-> same \cup If(QResid(c, b.P, b.Q), "one-step look-ahead")]
    [] b.op = "greedy" -> [s |-> s, bad |-> same \cup If(PolNear(c, b.P, Greedy(c, b.v4)), "greedy policy") \cup If(TNear(c, b.T, Collapse(c, b.P)), "collapsed transitions")]
    [] b.op = "greedyq" -> [s |-> s, bad |-> If(PolNear(c, b.P, [z \in States(c) |-> LET f(a) == b.q[z][a] IN ArgMax(Actions(c), f)]), "greedy policy of Q-values")]
    [] b.op = "start" -> [s |-> [s EXCEPT !.pol = b.P, !.left = b.max, !.on = TRUE, !.G = <<>>], bad |-> same]
    [] b.op = "eval" ->   \* the evaluator is called with the dynamics of the current policy and answers v4
         LET old == s.pol
             G == Greedy(c, b.v4)
             done == PolNear(c, old, G)
         IN [s |-> [s EXCEPT !.pol = IF done THEN @ ELSE GPol(c, G), !.left = @ - 1, !.on = ~done],
             bad |-> If(s.on /\ s.left > 0, "iterates until the policy is stable or the limit") \cup If(TNear(c, b.T, Collapse(c, old)), "evaluates the current policy")]
    [] b.op = "end" -> [s |-> [s EXCEPT !.on = FALSE],
                        bad |-> same \cup If(~s.on \/ s.left = 0, "iterates until the policy is stable or the limit")
                                \cup If(\A z \in States(c) : \A a \in Actions(c) : Abs(b.P[z][a] - s.pol[z][a]) <= 1, "the policy found") \cup If(TNear(c, b.T, Collapse(c, s.pol)), "collapsed transitions")]
    [] b.op = "optimal" ->  \* a policy returned by an optimiser, with the values of its dynamics
         [s |-> s, bad |-> same \cup If(RowsSum(c, b.P), "rows sum to one") \cup If(TNear(c, b.T, Collapse(c, b.P)), "collapsed transitions")
                           \cup If(Small(c, Resid(c, b.T, b.V), 96), "Bellman equation") \cup If(OptNear(c, b.P, b.V), "greedy with respect to its own value")]
    [] b.op = "lstd" ->  \* features b.F[f][s] (small integers): the Bellman residual is orthogonal to every feature
         LET r == Resid(c, Collapse(c, b.P), b.V) IN
         [s |-> s, bad |-> same \cup If(\A f \in DOMAIN b.F : Abs(SumSeq([z \in States(c) |-> b.F[f][z] * r[z]])) <= 400, "projected Bellman equation")
                           \cup If(\A x \in States(c) : \A y \in States(c) : (\A f \in DOMAIN b.F : b.F[f][x] = b.F[f][y]) => Abs(b.V[x] - b.V[y]) <= 1, "values are linear in the features")]
(* ------------------------------------------------------------ exploration
   exact policy iteration on all small models: improvement, termination and optimality *)
RECURSIVE Iterate(_, _, _, _)
Iterate(c, T, V, k) == IF k = 0 THEN V ELSE Iterate(c, T, TLCEval(Back(c, T, V)), k - 1)
DetT(c, G) == [s \in States(c) |-> c.Ts[CHOOSE a \in G[s] : TRUE][s]]
Value(c, G) == Iterate(c, DetT(c, G), [s \in States(c) |-> 0], 24)
GreedyU(c, V) == [s \in States(c) |-> {a \in Actions(c) : \A d \in Actions(c) : LookA(c, V, s, d) <= LookA(c, V, s, a) + 4}]
(* only change where there is something to gain *)
Improve(c, G, V) == LET H == GreedyU(c, V) IN [s \in States(c) |-> IF G[s] \subseteq H[s] THEN G[s] ELSE {CHOOSE a \in H[s] : TRUE}]
=============================================================================
