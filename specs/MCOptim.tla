------------------------------ MODULE MCOptim ------------------------------
EXTENDS Optim
VARIABLES gCfg, gState, gHist
CONSTANTS MAXN
Cfgs == {[min |-> m, batch |-> b, bmax |-> b, maxEv |-> e, maxSt |-> t, desired |-> d, conv |-> FALSE, drift |-> FALSE, slack |-> 0,
          init |-> i, initv |-> [k \in 1..i |-> 0], logv |-> TRUE, logi |-> TRUE, nan |-> (m /\ d = NOVAL)] :
         m \in BOOLEAN, b \in 1..2, e \in 2..MAXN, t \in {-1, 0, 1, 3}, d \in {NOVAL, -1, 1}, i \in 0..1}
INSTANCE GenBase WITH Init0 <- GInit0, Ops <- OOps, Next0 <- ONext0
vals == {gState.log[k][2] : k \in DOMAIN gState.log}
BestInv == IF vals = {} THEN gState.best = NOVAL ELSE gState.best \in vals /\ \A v \in vals : AtLeast(gCfg, gState.best, v)
CountInv == gState.n = Len(gState.log) /\ (gState.n <= gCfg.maxEv \/ gState.n = gCfg.init)
(* an evaluation beyond the step in which the desired value was found never happens *)
DesiredInv == \A k \in DOMAIN gState.log : Reached(gCfg, gState.log[k][2]) => (gState.n - k < gCfg.batch \/ (k <= gCfg.init /\ gState.n = gCfg.init))
StepsInv == gState.n >= gCfg.init + gState.steps * gCfg.batch /\ (gCfg.nan \/ gState.n = gCfg.init + gState.steps * gCfg.batch)
=============================================================================
