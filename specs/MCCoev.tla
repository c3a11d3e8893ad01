------------------------------- MODULE MCCoev -------------------------------
EXTENDS Coev
VARIABLES gCfg, gState, gHist
CONSTANTS PLAYERS, STEPS
Cfgs == {[n |-> PLAYERS, depth |-> STEPS, back |-> k - 1, start |-> <<[j \in 1..PLAYERS |-> j]>>, kind |-> "single"] : k \in {0, 1, 2}}
INSTANCE GenBase WITH Init0 <- VInit0, Ops <- VOps, Next0 <- VNext0
N == 1..PLAYERS
All == [j \in N |-> j]
(* scores are antisymmetric, so the fitness sums vanish in total; every result is stored once *)
AntiInv == \A p \in N : \A o \in N : Beats(gState, p, o) = -Beats(gState, o, p)
ZeroInv == SumSeq([p \in N |-> SumBeats(gState, p, All)]) = 0
CountInv == gState.steps = SumF([k \in DOMAIN gState.res |-> Len(gState.res[k])])
(* sharing distributes exactly one point per beaten opponent (up to rounding) *)
ShareInv == LET A == <<1, 2>> B == SubSeq(All, 3, PLAYERS)
                w(h) == {k \in DOMAIN B : Beats(gState, h, B[k]) > 0}
                m(h) == Len(B) - Cardinality({k \in DOMAIN B : Beats(gState, h, B[k]) = 0})
                tot == m(1) * Share(gState, A, 1, B) + m(2) * Share(gState, A, 2, B)
            IN Abs(tot - One * Cardinality(w(1) \cup w(2))) <= 2 * PLAYERS
(* greedy sampling always finds a set of every size *)
GreedyInv == \A k \in 1..PLAYERS : \E O \in SUBSET N : Cardinality(O) = k /\ Greedy(gState, O, N, N)
=============================================================================
