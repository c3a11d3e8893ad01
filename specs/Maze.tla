-------------------------------- MODULE Maze --------------------------------
(* Mazes (compass and polar), the tasks defined on them and the tiger problem.
   cfg: kind, tab (rows of 0/1, 1 = wall), init (allowed start cells), len, fin, bang, def (rewards, Q12), max (-1 none), gamma (sixteenths, 0 none),
        noiseA, noiseO (0 none, 1 always).  Cells are <<row, column>>, rows counted upwards from 0; headings and directions 0 N, 1 E, 2 S, 3 W. *)
EXTENDS Fixed, FiniteSets
DirV == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>
Wall(c, p) == c.tab[p[1] + 1][p[2] + 1] = 1
Rows(c) == 0..(Len(c.tab) - 1)
ColsOf(c) == 0..(Len(c.tab[1]) - 1)
Free(c) == {p \in Rows(c) \X ColsOf(c) : ~Wall(c, p)}
Ahead(p, d) == <<p[1] + DirV[d + 1][1], p[2] + DirV[d + 1][2]>>
B01(b) == IF b THEN 1 ELSE 0
Polar(c) == c.kind \in {"polar", "polartask", "shuttle"}
(* outcome [pos, dir, bang] of walking in direction d *)
Walk(c, m, d) == IF Wall(c, Ahead(m.pos, d)) THEN [m EXCEPT !.bang = TRUE] ELSE [m EXCEPT !.pos = Ahead(@, d), !.bang = FALSE]
Turn(m, k) == [m EXCEPT !.dir = (@ + k) % 4, !.bang = FALSE]
PolarAct(c, m, a) == CASE a = 0 -> [m EXCEPT !.bang = FALSE]
                       [] a = 1 -> Walk(c, m, m.dir)
                       [] a = 2 -> Turn(m, 2)
                       [] a = 3 -> Turn(m, 1)
                       [] a = 4 -> Turn(m, 3)
NActs(c) == IF c.kind = "shuttle" \/ c.kind = "tiger" THEN 3 ELSE IF Polar(c) THEN 5 ELSE 4
(* shuttle: the outcomes of the actions backup, forward and turn around; goal <<1, 5>>, other station <<1, 1>> *)
Backup(c, m) == LET w == Walk(c, m, (m.dir + 2) % 4) IN [w EXCEPT !.bang = FALSE]
Shuttle(c, m, a) ==
  LET q == [m EXCEPT !.bang = FALSE] IN
  CASE a = 2 -> {Turn(q, 2)}
    [] a = 1 -> LET w == Walk(c, q, q.dir) IN IF w.pos \in {<<1, 1>>, <<1, 5>>} THEN {[q EXCEPT !.bang = TRUE]} ELSE {w}
    [] a = 0 -> {q, Backup(c, q)} \cup (IF m.pos[2] = 3 \/ (m.pos[2] = 2 /\ m.dir = 3) \/ (m.pos[2] = 4 /\ m.dir = 1) THEN {Turn(q, 2)} ELSE {})
(* all allowed outcomes of an action; the noise of FourByThreeMaze never reverses the action, other noise picks any action *)
Outcomes(c, m, a) ==
  IF c.kind = "shuttle" THEN Shuttle(c, m, a)
  ELSE IF Polar(c) THEN {PolarAct(c, m, x) : x \in IF c.noiseA = 1 THEN 0..4 ELSE {a}}
  ELSE {Walk(c, m, d) : d \in IF c.noiseA = 0 THEN {a} ELSE IF c.kind = "four" THEN (0..3) \ {(a + 2) % 4} ELSE 0..3}
(* ------------------------------------------------------------ observations *)
Sens(c, m) == [k \in 1..4 |-> LET d == IF Polar(c) THEN (m.dir + k - 1) % 4 ELSE k - 1
                                  w == B01(Wall(c, Ahead(m.pos, d)))
                              IN IF c.noiseO = 1 THEN 1 - w ELSE w]
OneOf(n, k) == [x \in 1..n |-> B01(x = k)]
CheeseObs(c, m, goal) ==
  LET w == [d \in 0..3 |-> Wall(c, Ahead(m.pos, d))]
      n == Cardinality({d \in 0..3 : w[d]})
  IN OneOf(7, IF m.pos = goal THEN 7 ELSE IF n = 3 THEN 1 ELSE IF n = 1 THEN 6 ELSE IF w[0] = w[1] THEN 2 ELSE IF w[0] = w[3] THEN 3 ELSE IF w[0] THEN 4 ELSE 5)
ObsOk(c, s, m, goal, o) ==
  CASE c.kind = "mdp" -> Len(o) = 1 /\ \A x \in s.seen : (x[1] = m.pos) = (x[2] = o[1])
    [] c.kind = "tmaze" -> o = OneOf(4, IF m.pos = c.init[1] THEN (IF goal[1] = 3 THEN 1 ELSE 2) ELSE IF m.pos[2] = c.len + 1 THEN 3 ELSE 4)
    [] c.kind = "cheese" -> o = CheeseObs(c, m, goal)
    [] c.kind = "four" -> LET e == Wall(c, Ahead(m.pos, 1))
                              w == Wall(c, Ahead(m.pos, 3))
                          IN o = <<B01(w), B01(e), B01(w /\ e), B01(~w /\ ~e)>>
    [] c.kind = "shuttle" -> IF m.pos = goal THEN o = OneOf(5, 5) ELSE IF m.pos = <<1, 1>> THEN o = OneOf(5, 1)
                             ELSE o = OneOf(5, ((m.dir + 2) % 4) + 1) \/ (m.pos[2] = 3 /\ o = OneOf(5, m.dir + 1))
    [] OTHER -> o = Sens(c, m)
(* ------------------------------------------------------------ task semantics *)
BadEnd(c, m, goal) == \/ c.kind = "four" /\ m.pos = <<2, 4>>
                      \/ c.kind = "tmaze" /\ m.pos[2] = c.len + 1 /\ m.pos[1] # 2 /\ m.pos # goal
Reward(c, m, goal) == IF c.kind = "four" /\ m.pos = <<2, 4>> THEN -One
                      ELSE IF c.kind = "tmaze" /\ BadEnd(c, m, goal) THEN c.bang
                      ELSE IF m.pos = goal THEN c.fin ELSE IF m.bang THEN c.bang ELSE c.def
Finished(c, m, goal, steps) == m.pos = goal \/ BadEnd(c, m, goal) \/ (c.max >= 0 /\ steps >= c.max)
IsTask(c) == c.kind \notin {"env", "polar", "mdp"}
If(b, x) == IF b THEN {} ELSE {x}
MInit(c) == [c |-> c, m |-> [pos |-> <<0, 0>>, dir |-> 0, bang |-> FALSE], goal |-> c.goal, steps |-> 0, cum |-> 0, gk |-> 65536, seen |-> {}, left |-> FALSE, done |-> FALSE, n |-> 0]
Starts(c) == IF c.init = <<>> THEN Free(c) \ {c.goal} ELSE {c.init[k] : k \in DOMAIN c.init}
Gk(c, g) == IF c.gamma = 0 THEN g ELSE (g * c.gamma) \div 16
Cum(s, rew) == LET g == Gk(s.c, s.gk) IN s.cum + ((rew \div 256) * g) \div 256 + ((rew % 256) * g) \div 65536
MDo(s, b) ==
  LET c == s.c
      obs(m, goal) == [pos |-> <<b.pos[1], b.pos[2]>>, dir |-> IF Polar(c) THEN b.dir ELSE 0, bang |-> b.bang]
      m == obs(0, 0)
      goal == IF c.kind = "tmaze" THEN <<b.goal[1], b.goal[2]>> ELSE c.goal
      see(x) == If(ObsOk(c, s, x, goal, b.obs), "observation")
      keep(t) == [t EXCEPT !.seen = IF c.kind = "mdp" THEN @ \cup {<<t.m.pos, b.obs[1]>>} ELSE @]
  IN
  IF b.err # "" THEN [s |-> s, bad |-> {"raised " \o b.err}] ELSE
  CASE b.op = "reset" ->
         [s |-> keep([s EXCEPT !.m = m, !.goal = goal, !.steps = 0, !.cum = 0, !.gk = 65536]),
          bad |-> If(m.pos \in Starts(c), "start position") \cup If(~m.bang, "no bump after a reset") \cup see(m)
                  \cup If(~Polar(c) \/ b.dir \in 0..3, "heading")
                  \cup If(c.kind # "tmaze" \/ goal \in {<<1, c.len + 1>>, <<3, c.len + 1>>}, "goal")
                  \cup If(~IsTask(c) \/ b.cum = 0, "total reward") \cup If(~IsTask(c) \/ b.fin = Finished(c, m, goal, 0), "finished")]
    [] b.op = "act" ->
         LET t == [s EXCEPT !.m = m, !.steps = @ + 1, !.gk = Gk(c, @), !.cum = IF IsTask(c) THEN b.cum ELSE @]
             rew == Reward(c, m, s.goal)
         IN [s |-> keep(t),
             bad |-> If(m \in Outcomes(c, s.m, b.a), "movement") \cup If(goal = s.goal, "the goal stays") \cup see(m)
                     \cup If(~IsTask(c) \/ Abs(b.rew - rew) <= 1, "reward") \cup If(~IsTask(c) \/ b.rew2 = b.rew, "asking twice for the reward")
                     \cup If(~IsTask(c) \/ b.fin = Finished(c, m, s.goal, t.steps), "finished")
                     \cup If(~IsTask(c) \/ Abs(b.cum - Cum(s, rew)) <= 5, "total reward")]
    [] b.op = "mdp" ->   \* action and reward of the fully observable task: the environment starts again when the goal was reached
         LET o == CHOOSE x \in Outcomes(c, s.m, b.a) : TRUE
             win == o.pos = c.goal
         IN [s |-> keep([s EXCEPT !.m = m]),
             bad |-> If(b.rew = IF win THEN One ELSE 0, "reward") \cup If(IF win THEN m.pos \in Starts(c) ELSE m = o, "movement") \cup see(m)]
    [] b.op = "tigerreset" -> [s |-> [s EXCEPT !.left = b.left, !.done = FALSE, !.steps = 0, !.cum = 0, !.gk = 65536],
                               bad |-> If(b.obs = (IF (c.noiseO = 0) = b.left THEN <<1, 0>> ELSE <<0, 1>>), "observation") \cup If(b.cum = 0, "total reward") \cup If(~b.fin, "finished")]
    [] b.op = "tiger" ->
         LET rew == IF b.a = 0 THEN -One ELSE IF (b.a = 1) = s.left THEN -100 * One ELSE 10 * One
             t == [s EXCEPT !.done = @ \/ b.a # 0, !.steps = @ + 1, !.gk = Gk(c, @), !.cum = b.cum]
         IN [s |-> t,
             bad |-> If(b.rew = rew /\ b.rew2 = rew, "reward") \cup If(b.left = s.left, "the tiger stays") \cup If(Abs(b.cum - Cum(s, rew)) <= 40, "total reward")
                     \cup If(b.fin = (t.done \/ (c.max >= 0 /\ t.steps >= c.max)), "finished")
                     \cup If(b.obs = (IF (c.noiseO = 0) = b.left THEN <<1, 0>> ELSE <<0, 1>>), "observation")]
(* ------------------------------------------------------------ exploration: movement without noise *)
MOps(s) == IF s.n = 0 THEN {<<"at", p, d>> : p \in Starts(s.c), d \in IF Polar(s.c) THEN 0..3 ELSE {0}} ELSE {<<"act", <<a, 0>>, 0>> : a \in 0..(NActs(s.c) - 1)}
MNext0(s, op) ==
  LET t == IF op[1] = "at" THEN [s EXCEPT !.m = [pos |-> op[2], dir |-> op[3], bang |-> FALSE]]
           ELSE IF Polar(s.c) THEN [s EXCEPT !.m = PolarAct(s.c, @, op[2][1])] ELSE [s EXCEPT !.m = Walk(s.c, @, op[2][1])]
  IN [t EXCEPT !.n = 1]
=============================================================================
