------------------------------- MODULE MCMaze -------------------------------
(* all mazes with a 3 x 3 (or 2 x 3) interior with a walled border *)
EXTENDS Maze
VARIABLES gCfg, gState, gHist
CONSTANT H
Inner == [1..(3 * H) -> {0, 1}]
Tab(f) == <<<<1, 1, 1, 1, 1>>>> \o [r \in 1..H |-> <<1, f[3 * r - 2], f[3 * r - 1], f[3 * r], 1>>] \o <<<<1, 1, 1, 1, 1>>>>
Goal(f) == LET k == CHOOSE x \in DOMAIN f : f[x] = 0 /\ \A y \in DOMAIN f : f[y] = 0 => y <= x IN <<((k - 1) \div 3) + 1, ((k - 1) % 3) + 1>>
Cfgs == {[kind |-> k, tab |-> Tab(f), goal |-> Goal(f), init |-> <<>>, len |-> 0, fin |-> One, bang |-> -512, def |-> -64, max |-> 6, gamma |-> 8, noiseA |-> 0, noiseO |-> 0] :
            k \in {"maze", "polartask"}, f \in {g \in Inner : Cardinality({x \in DOMAIN g : g[x] = 0}) >= 2}}
INSTANCE GenBase WITH Init0 <- MInit, Ops <- MOps, Next0 <- MNext0
Mm == gState.m
Cc == gState.c
InFreeInv == gState.n = 0 \/ Mm.pos \in Free(Cc)
(* a bump says exactly that the wall is there; moves can be undone; turning four times, or back, changes nothing; only walls are observed *)
BumpInv == gState.n = 0 \/ ~Mm.bang \/ \E d \in 0..3 : Wall(Cc, Ahead(Mm.pos, d))
UndoInv == gState.n = 0 \/ Polar(Cc) \/ \A d \in 0..3 : LET w == Walk(Cc, Mm, d) IN w.bang \/ Walk(Cc, w, (d + 2) % 4).pos = Mm.pos
TurnInv == gState.n = 0 \/ ~Polar(Cc) \/ LET q == PolarAct(Cc, PolarAct(Cc, Mm, 3), 4) IN q.pos = Mm.pos /\ q.dir = Mm.dir
SeeInv == gState.n = 0 \/ \A d \in 0..3 : ~Polar(Cc) \/ Sens(Cc, PolarAct(Cc, Mm, 3))[1] = Sens(Cc, Mm)[2]
=============================================================================
