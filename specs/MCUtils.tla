------------------------------ MODULE MCUtils ------------------------------
EXTENDS Utils
VARIABLES gCfg, gState, gHist
CONSTANTS NODES, EDGES, BITS
Cfgs == {[n |-> NODES, edges |-> EDGES]}
INSTANCE GenBase WITH Init0 <- UInit0, Ops <- UOps, Next0 <- UNext0
SetSeq(X) == LET RECURSIVE F(_)
                 F(Y) == IF Y = {} THEN <<>> ELSE LET y == CHOOSE y \in Y : TRUE IN <<y>> \o F(Y \ {y})
             IN F(X)
Adj == [a \in 1..gCfg.n |-> SetSeq({b \in 1..gCfg.n : <<a, b>> \in gState.edges})]
(* walks of length k from S to n that do not pass through Stop *)
RECURSIVE Walk(_, _, _, _)
Walk(k, S, Stop, n) == IF k = 0 THEN n \in S ELSE \E m \in 1..gCfg.n : m \notin Stop /\ <<m, n>> \in gState.edges /\ Walk(k - 1, S, Stop, m)
(* the layers are the nodes at minimal distance *)
LayerInv == \A D \in SUBSET {1, gCfg.n} : LET ls == TLCEval(LayersFrom(Adj, {1, 2}, D)) IN
   \A n \in 1..gCfg.n :
      LET ks == {k \in 0..gCfg.n : Walk(k, {1, 2}, D, n)} IN
      IF ks = {} THEN n \notin UNION Ran(ls) ELSE n \in UNION Ran(ls) /\ Dist(ls, n) \in ks /\ \A k \in ks : Dist(ls, n) <= k
(* the Gray code is a bijection of the n-bit numbers and neighbours differ in one bit; binary strings and numbers are inverse *)
ASSUME \A n \in 1..BITS : /\ {Gray(i, n) : i \in 0..Pow(2, n) - 1} = 0..Pow(2, n) - 1
                          /\ \A i \in 0..Pow(2, n) - 1 : UnGray(Gray(i, n), n) = i
                          /\ \A i \in 0..Pow(2, n) - 2 : \E k \in 0..n - 1 : Pow(2, k) = XorN(Gray(i, n), Gray(i + 1, n), n)
                          /\ \A i \in 0..Pow(2, n) - 1 : FromBits(Bits(i)) = i
(* cutting into blocks is a permutation *)
ASSUME \A h, w \in 1..6 : \A y \in {d \in 1..h : h % d = 0} : \A x \in {d \in 1..w : w % d = 0} :
          {BlockPos(p, <<h, w>>, <<y, x>>) : p \in 0..(h * w) - 1} = 0..(h * w) - 1
ASSUME \A d, h, w \in {1, 2, 4} : \A z \in {k \in 1..d : d % k = 0} : \A y \in {k \in 1..h : h % k = 0} : \A x \in {k \in 1..w : w % k = 0} :
          {BlockPos(p, <<d, h, w>>, <<z, y, x>>) : p \in 0..(d * h * w) - 1} = 0..(d * h * w) - 1
=============================================================================
