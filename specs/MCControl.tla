------------------------------ MODULE MCControl ------------------------------
EXTENDS Control
VARIABLES gCfg, gState, gHist
CONSTANTS DEPTH
B(env, task, ops) == [env |-> env, task |-> task, len |-> 10, random |-> TRUE, dim |-> 1, N |-> 4, half |-> FALSE, goal |-> 0, max |-> 6, easy |-> FALSE, again |-> FALSE,
                      and |-> FALSE, shuffled |-> FALSE, flip |-> FALSE, cutoff |-> 0, ops |-> ops, depth |-> DEPTH]
A(S) == {[op |-> "act", a |-> a, z |-> <<0, 0, 0, 0>>] : a \in S}
R(S) == {[op |-> "reset", s |-> s] : s \in S}
St(S) == {[op |-> "set", s |-> s] : s \in S}
Three == {<<0>>, <<1>>, <<2>>}
Pol == {<<0>>, <<4096>>, <<-1024>>}
Dis == {<<0>>, <<4096>>, <<8192>>}
PS == {<<100, 0, 0, 0>>, <<2800, 6000, 9800, 4096>>, <<-2000, -8000, 150, -20000>>}
P6 == {<<100, 0, -200, 0, 100, 0>>, <<2800, 6000, 100, -2000, 9800, 4096>>}
Cfgs == {B("cart", t, A(Pol) \cup St(PS)) : t \in {"bal", "just", "easy"}} \cup {B("cart", t, A(Dis) \cup St(PS)) : t \in {"disc", "nohelp", "pomdp", "rbf"}} \cup
        {B("nm", "bal", A(Pol) \cup St(PS))} \cup {B(e, "bal", A(Pol) \cup St(P6)) : e \in Twin} \cup {B("dbl", "dblrbf", A({<<0>>, <<8192>>}) \cup St(P6))} \cup
        {[B("lin", "quad", A({<<0>>, <<4096>>}) \cup St(PS)) EXCEPT !.half = TRUE]} \cup
        {[B("mcar", "own", A(Three) \cup St({<<-1395000, -69000>>, <<440000, 20000>>})) EXCEPT !.goal = 450000, !.again = g] : g \in BOOLEAN} \cup
        {[B("acro", "own", A(Three) \cup St({<<12000, -12000, 20000, -20000>>, <<9000, 12000, 51000, 115000>>})) EXCEPT !.goal = g, !.easy = e] : g \in {-4096, 6144}, e \in BOOLEAN} \cup
        {[B("single", "own", A(Three) \cup St({<<12868, 12000, 0, -20000>>, <<12868, -11000, 0, 30000>>})) EXCEPT !.goal = 7987]} \cup
        {B("ship", "north", A({<<4096, 0>>, <<-4096, 4096>>, <<2000, -1000>>}) \cup St({<<737000, 700000, 163000>>, <<10000, -400, -40000>>}))} \cup
        {[B(e, "own", A({<<0>>, <<1>>})) EXCEPT !.and = a, !.cutoff = c] : e \in {"xor", "chain"}, a \in BOOLEAN, c \in {0, 2}}
Start0(c) == LET o == CInit0(c) IN
  [o EXCEPT !.s = CASE c.env \in {"mcar", "acro", "single"} -> Start(o) [] c.env \in Twin -> <<0, 0, 0, 0, 0, 0>> [] c.env = "ship" -> <<4096, 0, 0>> [] c.env \in {"xor", "chain"} -> <<>> [] OTHER -> <<0, 0, 0, 0>>]
INSTANCE GenBase WITH Init0 <- Start0, Ops <- COps, Next0 <- CNext0
(* the physical bounds *)
BoundInv == gState.s # <<>> => InBounds(gState, gState.s)
(* a mirrored pole or acrobot under a mirrored force moves in the mirrored way *)
Neg(s) == [k \in DOMAIN s |-> -s[k]]
MirrorInv == LET o == gState IN
             CASE o.env \in {"cart", "nm"} /\ Tame(o) -> \A f \in {0, 4096, 204800} : NearV(Neg(Pole(Neg(o.s), -f, o.len, 10)), Pole(o.s, f, o.len, 10), 6, 512)
               [] o.env \in Twin /\ Tame(o) -> \A f \in {0, 40960} : NearV(Neg(Double(Neg(o.s), -f)), Double(o.s, f), 8, 256)
               [] o.env = "acro" /\ Tame(o) -> \A a \in 0..2 : NearS(o, Neg(Acro(Neg(o.s), 2 - a)), Acro(o.s, a))
               [] OTHER -> TRUE
(* a balancing pole is upright and not lost; the reward of a lost pole is the worst one *)
RewardInv == LET o == gState IN
             /\ (o.env \in Poles /\ o.task # "quad" /\ o.t <= o.N => \A r \in Rewards(o) : r <= One /\ r >= -2 * o.N * One /\ (Lost(o) = {TRUE} /\ o.task \in {"bal", "easy"} /\ o.t < o.N => r < 0))
             /\ (o.task = "north" => \A r \in Rewards(o) : Abs(r) <= (100 * One) \div o.N)
             /\ (o.env \in {"mcar", "acro", "single"} => (o.done = 0 => o.steps < o.max) /\ (~o.easy => o.cum \in {0, One}))
             /\ (o.env = "chain" => o.counter \in 0..3)
(* observations lie within -1 and 1 where the task scales them; the radial features within 0 and 1 *)
ObsInv == LET o == gState IN
          CASE o.task \in {"bal", "just", "easy", "north"} /\ o.env \notin {"nm", "nmdbl"} -> \A k \in DOMAIN Obs(o) : Abs(Obs(o)[k]) <= One
            [] o.task = "rbf" -> \A k \in DOMAIN Obs(o) : Obs(o)[k] >= 0 /\ Obs(o)[k] <= One
            [] OTHER -> TRUE
(* an episode is over when its time is; without an end it goes on *)
FinishInv == LET o == gState IN (o.env \in Poles \/ o.env = "ship") /\ o.t >= o.N => Finishes(o) = {TRUE}
=============================================================================
