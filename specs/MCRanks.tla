------------------------------- MODULE MCRanks -------------------------------
EXTENDS Ranks
VARIABLES gCfg, gState, gHist
CONSTANTS DEPTH, SIZE, BITS, RANKS
Cfgs == {[kind |-> "pop", depth |-> DEPTH, max |-> SIZE, fits |-> 2],
         [kind |-> "minhash", depth |-> DEPTH - 1, perms |-> <<[k \in 1..BITS |-> k], [k \in 1..BITS |-> BITS + 1 - k]>>, universe |-> [1..BITS -> {0, 1}]]}
INSTANCE GenBase WITH Init0 <- XInit0, Ops <- ROps, Next0 <- RNext0
(* the best fitness is never lost by selection, reproduction, burst mutation or removal of the worst *)
TopInv == gCfg.kind = "pop" /\ DOMAIN gState.subs[1].fit # {} => MaxFit(gState.subs[1].fit) = gState.top
(* populations never exceed their size by the operators; every set of the n best is complementary to one of the worst *)
BestInv == gCfg.kind = "pop" => LET f == gState.subs[1].fit IN \A n \in 0..Cardinality(DOMAIN f) : Top(f, n) # {} /\ \A S \in Top(f, n) : IsLow(f, Cardinality(DOMAIN f) - n, DOMAIN f \ S)
(* an inserted item is its own nearest neighbour *)
SelfInv == gCfg.kind = "minhash" => \A i \in DOMAIN gState.items : \A j \in DOMAIN gState.items :
             Knn({m \in DOMAIN gState.items : gState.items[m].cell = gState.items[i].cell}, Vals(gState, gState.items[i].x), 1, <<j>>) => gState.items[j].x = gState.items[i].x
(* weights never fall with the rank *)
P0 == [lin |-> 1024, m |-> 3, t |-> 10, f |-> 16, d |-> 64, b |-> 20]
ASSUME \A kind \in {"ranks", "base", "gini", "exp", "hansen", "top", "toplin", "bilinear"} : \A n \in 2..RANKS : \A k \in 0..n - 2 : Weight(kind, n, k, P0) <= Weight(kind, n, k + 1, P0)
ASSUME \A kind \in {"base", "gini", "toplin", "bilinear"} : \A n \in 2..RANKS : Weight(kind, n, n - 1, P0) = One /\ Weight(kind, n, 0, P0) >= 0
(* every outcome of the tournaments satisfies their condition *)
ASSUME \A R \in [1..3 -> 0..2] : \A o \in [1..3 -> 1..3] : (\A i \in 1..3 : o[i] # i) =>
         TournOk(R, [j \in 1..3 |-> Cardinality({i \in 1..3 : (IF R[o[i]] > R[i] THEN o[i] ELSE i) = j})], 2)
(* the pattern stays within the bounds *)
ASSUME \A x, y \in 0..16 : \A l \in 0..2 : \A p \in Around(<<0, 0>>, <<16, 16>>, <<x, y>>, l) : p[1] \in 0..16 /\ p[2] \in 0..16
=============================================================================
