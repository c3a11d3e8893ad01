------------------------------- MODULE MCPlay -------------------------------
EXTENDS Play
VARIABLES gCfg, gState, gHist
CONSTANT DEEP
Cfgs == {[game |-> "capture", alt |-> a, win |-> w, coef |-> k, minm |-> 3, maxm |-> 9, opp0 |-> o, n |-> 1, depth |-> DEEP] :
            a \in BOOLEAN, w \in {4096, 8192}, k \in {0, 2048}, o \in {1, -1}}
INSTANCE GenBase WITH Init0 <- PInit, Ops <- POps, Next0 <- PNext0
(* colours only change at the end of a game of an alternating task *)
ColourInv == gState.opp = 0 \/ (gState.next = gState.opp) = (~gState.c.alt \/ ~gState.over)
(* no reward before the end; at the end a reward of either sign, of the size of the winner's reward at most *)
RewardInv == (~gState.over => gState.rew = 0) /\ Abs(gState.rew) <= gState.c.win
(* anti-symmetry: the reward of the other side is the opposite *)
FairInv == \A w \in {1, -1, 2} : \A m \in 3..9 : Signed(gState.c, 1, w, m) = -Signed(gState.c, -1, w, m)
=============================================================================
