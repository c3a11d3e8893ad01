------------------------------ MODULE MCPareto ------------------------------
EXTENDS Pareto
VARIABLES gCfg, gState, gHist
CONSTANTS DEEP, GRID
Cfgs == {[depth |-> DEEP, grid |-> GRID, eq |-> e] : e \in BOOLEAN}
INSTANCE GenBase WITH Init0 <- GInit0, Ops <- POps, Next0 <- PNext0
(* the front kept incrementally is the front by definition *)
Opt(X) == {v \in X : ~\E w \in X : w # v /\ Better(gState.c.eq, w, v)}
FrontInv == gState.front = Opt(gState.items)
(* no two of its elements dominate each other, and every other element is dominated by one of it *)
CoverInv == /\ \A v \in gState.front : \A w \in gState.front : v = w \/ ~Better(gState.c.eq, v, w)
            /\ \A v \in gState.items \ gState.front : \E w \in gState.front : Better(gState.c.eq, w, v)
(* divide and conquer: the front of a union is the front of the union of the fronts *)
MergeInv == \A m \in 0..GRID : LET A == {v \in gState.items : v[1] <= m} IN Opt(gState.items) = Opt(Opt(A) \cup Opt(gState.items \ A))
=============================================================================
