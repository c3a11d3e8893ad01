------------------------------- MODULE Control -------------------------------
(* Control environments and the tasks on them: cart-pole variants, mountain car, acrobot, ship steering, XOR, and the simple environment.
   One object per trace: an environment env, and the task on it ("none": the environment alone).
   Quantities are in 4096ths; those of the mountain car in millionths.  s: the physical state.
   The state after a step is the recorded one, which must be near the one computed here; exact: the state was set to exact values. *)
EXTENDS Fixed, FiniteSets
If(b, x) == IF b THEN {} ELSE {x}
(* ------------------------------------------------------------ trigonometry *)
(* in 32768ths *)
SinC(x) == LET q == (x * x) \div 32768
               a == 32768 - q \div 42
               b == 32768 - ((q * a) \div 32768) \div 20
               c == 32768 - ((q * b) \div 32768) \div 6
           IN (x * c) \div 32768
CosC(x) == LET q == (x * x) \div 32768
               z == 32768 - q \div 56
               a == 32768 - ((q * z) \div 32768) \div 30
               b == 32768 - ((q * a) \div 32768) \div 12
           IN 32768 - ((q * b) \div 32768) \div 2
SinQ(x) == IF x <= 25736 THEN SinC(x) ELSE CosC(51472 - x)
SinB(x) == LET m == x % 205887
           IN CASE m <= 51472 -> SinQ(m) [] m > 51472 /\ m <= 102944 -> SinQ(102944 - m)
                [] m > 102944 /\ m <= 154415 -> -SinQ(m - 102944) [] OTHER -> -SinQ(205888 - m)
CosB(x) == SinB(x + 51472)
Sin(x) == (SinB(8 * x) + 4) \div 8
Cos(x) == (CosB(8 * x) + 4) \div 8
Pi == 12868
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
(* ------------------------------------------------------------ pole dynamics *)
(* the pole: len/20 long, of mass 1/mpd; y: angle, its velocity, position, its velocity; f: the force *)
Deriv(y, f, len, mpd) ==
  LET sn == Sin(y[1])
      cs == Cos(y[1])
      w2 == Mul(y[2], y[2])
      g == (981 * (mpd + 1) * 41) \div mpd              \* 9.81 times the total mass
      num == Mul(g, sn) - Mul(f + ((len * Mul(w2, sn)) \div (20 * mpd)), cs)
      den == (4 * One * (mpd + 1)) \div (3 * mpd) - Mul(cs, cs) \div mpd
      u == (20 * Div(num, den)) \div len
      v == ((f - (len * ((Mul(u, cs) - Mul(w2, sn)) \div 20)) \div mpd) * mpd) \div (mpd + 1)
  IN <<y[2], u, y[4], v>>
AddK(y, k, d) == [i \in 1..4 |-> y[i] + (k[i] \div d)]
Pole(y, f, len, mpd) ==      \* one fiftieth of a second, by the Runge-Kutta method
  LET k1 == TLCEval(Deriv(y, f, len, mpd))
      k2 == TLCEval(Deriv(AddK(y, k1, 100), f, len, mpd))
      k3 == TLCEval(Deriv(AddK(y, k2, 100), f, len, mpd))
      k4 == TLCEval(Deriv(AddK(y, k3, 50), f, len, mpd))
  IN [i \in 1..4 |-> y[i] + ((k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i] + 150) \div 300)]
Double(s, f) == LET a == Pole(<<s[1], s[2], s[5], s[6]>>, f, 10, 10)
                    b == Pole(<<s[3], s[4], s[5], s[6]>>, f, 1, 100)
                IN <<a[1], a[2], b[1], b[2], b[3], b[4]>>
Lin(s, f, z) == <<s[1] + (s[2] \div 60) + (z[1] \div 1000), s[2] + ((22 * s[1]) \div 100) + ((224 * f) \div 10000) + ((335 * f) \div 10000000) + (z[2] \div 1000),
                  s[3] + (s[4] \div 60) + (z[3] \div 1000), s[4] + (f \div 60) + (z[4] \div 1000)>>
(* --------------------------------------------------------------- other dynamics *)
Car(s, a) ==
  LET c == CosB(2 * ((s[1] * 768) \div 15625))
      v == Clip(s[2] + 1000 * (a - 1) - (2500 * c) \div 32768, -70000, 70000)
      p == s[1] + v
  IN IF p <= -1400000 THEN <<-1400000, 0>> ELSE <<p, v>>
AcroSub(s, tq) ==
  LET c2 == Cos(s[2])
      s2 == Sin(s[2])
      d1 == 14336 + c2
      d2 == 5120 + (c2 \div 2)
      phi2 == (49 * Sin(s[1] + s[2])) \div 10
      phi1 == (147 * Sin(s[1])) \div 10 + phi2 - Mul(Mul(s[4], s[4] - 2 * s[3]) \div 2, s2)
      a2 == Div(tq * One + Mul(phi1, Div(d2, d1)) - Mul(Mul(s[3], s[3]) \div 2, s2) - phi2, 5120 - Div(Mul(d2, d2), d1))
      a1 == -Div(Mul(d2, a2) + phi1, d1)
      w1 == Clip(s[3] + (a1 \div 20), -51472, 51472)
      w2 == Clip(s[4] + (a2 \div 20), -115812, 115812)
  IN <<s[1] + (w1 \div 20), s[2] + (w2 \div 20), w1, w2>>
Wrap(x) == IF x < -Pi THEN x + 25736 ELSE IF x > Pi THEN x - 25736 ELSE x
Acro(s, a) == LET q == TLCEval(AcroSub(TLCEval(AcroSub(TLCEval(AcroSub(TLCEval(AcroSub(s, a - 1)), a - 1)), a - 1)), a - 1)) IN <<Wrap(q[1]), Wrap(q[2]), q[3], q[4]>>
(* heading (degrees), its velocity, speed; thrust, rudder; three disturbances *)
Ship(s, act, z) ==
  LET th == Clip(act[1], -One, 2 * One)
      ru == Clip(act[2], -90 * One, 90 * One)
      drag == 5 * s[1] + Mul(ru, ru) + z[1]
      force == 30 * th - 2 * s[3] - Mul(drag \div 50, s[3]) + 3 * z[2]
      v == Clip(s[3] + force \div 250, -10 * One, 40 * One)
      tq == -8 * Mul((ru + s[1] + s[2] + 10 * z[3]) \div 8, v)
      w == Clip(s[2] + tq \div 1000, -180 * One, 180 * One)
      h == s[1] + ((w + s[2]) \div 2)
  IN <<IF h > 180 * One THEN h - 360 * One ELSE IF h < -180 * One THEN h + 360 * One ELSE h, w, v>>
(* ------------------------------------------------------------ comparisons *)
(* the possible truth values of |v| < p/q and |v| > p/q where v is known up to rounding *)
Lt(v, p, q, ex) == LET V == Min2(Abs(v), 100000)
                       X == 2 * p * One
                   IN IF ex THEN {2 * V * q < X} ELSE IF (2 * V + 1) * q < X THEN {TRUE} ELSE IF (2 * V - 1) * q > X THEN {FALSE} ELSE BOOLEAN
Gt(v, p, q, ex) == LET V == Min2(Abs(v), 100000)
                       X == 2 * p * One
                   IN IF ex THEN {2 * V * q > X} ELSE IF (2 * V - 1) * q > X THEN {TRUE} ELSE IF (2 * V + 1) * q < X THEN {FALSE} ELSE BOOLEAN
Or(S, T) == {a \/ b : a \in S, b \in T}
And(S, T) == {a /\ b : a \in S, b \in T}
AnyOf(S(_), n) == IF n = 1 THEN S(1) ELSE Or(S(1), S(2))
(* ------------------------------------------------------------------ tasks *)
Poles == {"cart", "nm", "dbl", "nmdbl", "lin"}
Twin == {"dbl", "nmdbl"}
Angles(o) == IF o.env \in Twin THEN <<o.s[1], o.s[3]>> ELSE <<o.s[1]>>
Pos(o) == IF o.env \in Twin THEN o.s[5] ELSE o.s[3]
Sensors(o) == CASE o.env = "nm" -> <<o.s[1], o.s[3]>> [] o.env = "nmdbl" -> <<o.s[1], o.s[3], o.s[5]>> [] OTHER -> o.s
OutDim(o) == CASE o.task = "pomdp" -> 2 [] o.task = "rbf" -> 10 [] o.task = "dblrbf" -> 82 [] OTHER -> Len(Sensors(o))
Discrete == {"disc", "nohelp", "pomdp", "rbf", "dblrbf"}
(* the force that an action of the task stands for *)
Force(o, a) == CASE o.task = "none" -> a[1]
                 [] o.task \in Discrete -> Clip(50 * (a[1] - One), -50 * One, 50 * One)
                 [] OTHER -> Clip(50 * a[1], -50 * One, 50 * One)
Scale(v, lo, hi) == Clip(Div(2 * (v - lo), hi - lo) - One, -One, One)
Rbf(x, k) ==       \* the k-th centre: angles in {-pi/4, 0, pi/4}, velocities in {1, 0, -1}, the last coordinate varying fastest
  LET n == Len(x)
      dig(i) == (k \div (3 ^ (n - i))) % 3
      cen(i) == IF i % 2 = 1 THEN (dig(i) - 1) * 3217 ELSE (1 - dig(i)) * One
      d2 == SumSeq([i \in 1..n |-> LET d == Clip(x[i] - cen(i), -80000, 80000) IN Mul(d, d)])
  IN Exp(-(d2 \div 2))
Obs(o) ==
  CASE o.env = "mcar" -> <<o.s[1], 100 * o.s[2], 1000000>>
    [] o.env = "acro" -> <<(o.s[1] * One) \div Pi, (o.s[2] * One) \div Pi, (o.s[3] * One) \div Pi, (o.s[4] * One) \div Pi, One>>
    [] o.env = "single" -> <<(o.s[2] * One) \div Pi, (o.s[4] * One) \div Pi, One>>
    [] o.task = "north" -> <<Scale(o.s[1], -180 * One, 180 * One), Scale(o.s[2], -180 * One, 180 * One), Scale(o.s[3], -10 * One, 40 * One)>>
    [] o.task \in {"disc", "nohelp", "min"} -> Sensors(o)
    [] o.task = "pomdp" -> <<o.s[1], o.s[3]>>
    [] o.task = "rbf" -> <<One>> \o [k \in 1..9 |-> Rbf(<<o.s[1], o.s[2]>>, k - 1)]
    [] o.task = "dblrbf" -> <<One>> \o [k \in 1..81 |-> Rbf(<<o.s[1], o.s[2], o.s[3], o.s[4]>>, k - 1)]
    [] OTHER -> LET q == Sensors(o) IN [k \in DOMAIN q |-> IF k = 1 THEN Scale(q[k], -3 * One, 3 * One)
                                                             ELSE IF o.env \in {"nm", "nmdbl"} /\ k % 2 = 1 THEN q[k] ELSE Scale(q[k], -Pi, Pi)]
Fell(o, p, q) == LET A == Angles(o) IN AnyOf(LAMBDA k : Gt(A[k], p, q, o.exact), Len(A))
Upright(o) == LET A == Angles(o) IN AnyOf(LAMBDA k : Lt(A[k], 1, 20, o.exact), Len(A))
Centred(o) == Lt(Pos(o), 1, 20, o.exact)
Lost(o) == Or(Fell(o, 7, 10), Gt(Pos(o), 12, 5, o.exact))
Pick(good, bad, rg, rb, rn) == UNION {{IF g THEN rg ELSE IF b THEN rb ELSE rn : b \in bad} : g \in good}
SqSum(q) == SumSeq([k \in DOMAIN q |-> Mul(q[k], q[k])])
SqR(x) == IF Abs(x) < 40000 THEN (x * x + 2048) \div One ELSE Mul(x, x)
(* the possible rewards in the present state *)
Rewards(o) ==
  CASE o.env \in {"mcar", "acro", "single"} -> {o.r}
    [] o.env \in {"xor", "chain"} -> {IF o.flip THEN -o.r ELSE o.r}
    [] o.task = "bal" -> Pick(And(Upright(o), Centred(o)), Lost(o), 0, -2 * (o.N - o.t) * One, -One)
    [] o.task = "just" -> Pick(Upright(o), Lost(o), 0, -2 * (o.N - o.t) * One, -One)
    [] o.task = "easy" -> Pick(And(Upright(o), Centred(o)), Lost(o), 0, -2 * (o.N - o.t) * One, -(Abs(Pos(o)) \div 2))
    [] o.task \in {"disc", "pomdp"} -> Pick(Upright(o), Lost(o), One, -(o.N - o.t) * One, 0)
    [] o.task = "nohelp" -> Pick({FALSE}, Lost(o), 0, -(o.N - o.t) * One, 0)
    [] o.task \in {"rbf", "dblrbf"} -> Pick({FALSE}, Fell(o, 8, 5), 0, -One, 0)
    [] o.task = "quad" -> {12 * SqR(o.s[1]) + (Mul(o.s[2], o.s[2]) \div 4) + ((5 * Mul(o.s[3], o.s[3])) \div 4) + Mul(o.s[4], o.s[4]) + (Mul(o.act[1], o.act[1]) \div 100)}
    [] o.task = "north" -> LET v == (5 * o.s[3]) \div (2 * o.N) IN Pick(Lt(o.s[1], 5, 1, o.exact), {FALSE}, v, 0, 0)
    [] o.task = "min" -> {-SqSum([k \in DOMAIN o.ts |-> o.ts[k] + (o.act[k] \div 10)])}
(* the possible answers to "is the episode over" *)
Finishes(o) ==
  LET late == {o.t >= o.N} IN
  CASE o.env \in {"mcar", "acro", "single"} -> {o.done >= 3 /\ ~o.again}
    [] o.env \in {"xor", "chain"} -> {FALSE}
    [] o.task \in {"rbf", "dblrbf"} -> Or(Fell(o, 8, 5), late)
    [] o.task = "quad" -> Or(Or(Fell(o, 5236, 10000), Gt(Pos(o), 3, 2, o.exact)), late)
    [] o.task = "north" -> late
    [] o.task = "min" -> {o.asked >= o.N}
    [] OTHER -> Or(Lost(o), late)
(* --------------------------------------------------------- state transitions *)
Tame(o) == CASE o.env \in Poles -> \A k \in DOMAIN o.s : Abs(o.s[k]) <= 20 * One
             [] o.env \in {"acro", "single"} -> Abs(o.s[3]) <= 6 * One /\ Abs(o.s[4]) <= 6 * One
             [] OTHER -> TRUE
Moved(o, a, z) ==
  CASE o.env \in {"cart", "nm"} -> Pole(o.s, Force(o, a), o.len, 10)
    [] o.env \in Twin -> Double(o.s, Force(o, a))
    [] o.env = "lin" -> Lin(o.s, Force(o, a), z)
    [] o.env = "mcar" -> Car(o.s, a[1])
    [] o.env \in {"acro", "single"} -> Acro(o.s, a[1])
    [] o.env = "ship" -> Ship(o.s, IF o.task = "north" THEN <<Clip(((a[1] + One) * 3) \div 2 - One, -One, 2 * One), Clip(90 * a[2], -90 * One, 90 * One)>> ELSE a, z)
NearS(o, x, y) ==
  Len(x) = Len(y) /\
  CASE o.env = "mcar" -> NearV(x, y, 3, 0)
    [] o.env \in {"acro", "single"} -> \A k \in DOMAIN y : Near(x[k], y[k], 24, 128) \/ (k <= 2 /\ Near(Abs(x[k] - y[k]), 25736, 24, 128))
    [] o.env = "ship" -> NearV(x, y, 12, 400) \/ (NearV(Tail(x), Tail(y), 12, 400) /\ Near(Abs(x[1] - y[1]), 360 * One, 12, 400))
    [] OTHER -> NearV(x, y, 10, 200)
InBounds(o, s) ==
  CASE o.env = "mcar" -> s[1] >= -1400000 /\ Abs(s[2]) <= 70000
    [] o.env \in {"acro", "single"} -> Abs(s[1]) <= Pi + 1 /\ Abs(s[2]) <= Pi + 1 /\ Abs(s[3]) <= 51473 /\ Abs(s[4]) <= 115813
    [] o.env = "ship" -> Abs(s[1]) <= 180 * One /\ Abs(s[2]) <= 180 * One /\ s[3] >= -10 * One /\ s[3] <= 40 * One
    [] OTHER -> TRUE
Y(s) == -Cos(s[1]) - Cos(s[2])
(* acrobot: reward and end, given the height of the tip; mountain car: given the position *)
Reached(o, s) ==
  CASE o.env = "mcar" -> IF Abs(s[1] - o.goal) <= 1 /\ ~o.exact THEN BOOLEAN ELSE {s[1] >= o.goal}
    [] OTHER -> IF Abs(Y(s) - o.goal) <= 12 THEN BOOLEAN ELSE {Y(s) >= o.goal}
Outcomes(o, s) == {[r |-> IF o.easy THEN (IF hit THEN 10 * Y(s) ELSE Y(s)) ELSE IF hit THEN One ELSE 0,
                    done |-> IF o.steps >= o.max THEN 5 ELSE IF hit THEN 1 ELSE 0] : hit \in Reached(o, s)}
Start(o) == CASE o.env = "mcar" -> <<-500000, 0>> [] o.env = "acro" -> <<0, 0, 0, 0>> [] o.env = "single" -> <<Pi, 0, 0, 0>> [] OTHER -> <<>>
Fresh(o) == [o EXCEPT !.t = 0, !.cum = 0, !.samples = 0, !.steps = 0, !.done = 0]
Within(s, k, lo, hi) == s[k] >= lo - 1 /\ s[k] <= hi + 1
(* a state drawn at a reset *)
Starts(o, s) ==
  CASE o.env \in {"cart", "nm"} -> Len(s) = 4 /\ s[2] = 0 /\ s[4] = 0 /\ IF o.random THEN Within(s, 1, -819, 819) /\ Within(s, 3, -2048, 2048) ELSE s[1] = -819 /\ s[3] = 819
    [] o.env \in Twin -> Len(s) = 6 /\ s[2] = 0 /\ s[4] = 0 /\ s[6] = 0 /\ Within(s, 1, -819, 819) /\ Within(s, 3, -819, 819) /\ Within(s, 5, -2048, 2048)
    [] o.env = "lin" -> Len(s) = 4
    [] o.env = "ship" -> Len(s) = 3 /\ s[2] = 0 /\ s[3] = 0 /\ Within(s, 1, -30 * One, 30 * One)
    [] o.env = "simple" -> Len(s) = o.dim /\ \A k \in 1..o.dim : s[k] = 2 * One
    [] OTHER -> s = Start(o)
Disc(o, r) == LET RECURSIVE P(_, _)
                  P(v, k) == IF k = 0 THEN v ELSE P(v \div 2, k - 1)
              IN IF o.half THEN P(r, o.samples) ELSE r
(* ------------------------------------------------------------------ traces *)
CInit0(c) == [env |-> c.env, task |-> c.task, s |-> <<>>, exact |-> FALSE, len |-> c.len, random |-> c.random, dim |-> c.dim, N |-> c.N, half |-> c.half,
              goal |-> c.goal, max |-> c.max, easy |-> c.easy, again |-> c.again, and |-> c.and, shuffled |-> c.shuffled, flip |-> c.flip, cutoff |-> c.cutoff,
              t |-> 0, cum |-> 0, samples |-> 0, steps |-> 0, done |-> 0, r |-> 0, act |-> <<>>, ts |-> <<>>, pend |-> FALSE, asked |-> 0,
              counter |-> 0, obs |-> <<>>, k |-> 0, ops |-> c.ops, depth |-> c.depth]
(* what is seen of the task after an operation; the answer to "is it over" comes last, and may restart the task *)
Restarts(o) == o.env \in {"mcar", "acro", "single"} /\ o.again /\ o.done >= 3
AfterFin(o) == IF o.task = "min" THEN [o EXCEPT !.asked = IF @ >= o.N THEN 0 ELSE @ + 1]
               ELSE IF Restarts(o) THEN [Fresh(o) EXCEPT !.s = Start(o)] ELSE o
SeeBad(o, b) ==
  IF o.task = "none" THEN If(b.sens = Sensors(o), "sensors") \cup If(o.env \notin Poles \/ (b.angles = Angles(o) /\ b.pos = Pos(o)), "angles and position")
  ELSE If(\E r \in Rewards(o) : Near(b.rew, r, IF o.task = "quad" THEN 20 ELSE 6, 256), "reward") \cup
       If(Near(b.tot, o.cum, 3 + o.samples, 1024), "total reward") \cup
       If(b.out = OutDim(o) \/ o.env \in {"mcar", "acro", "single", "min"} \/ o.task = "min", "number of sensors") \cup
       If(IF o.task = "min" THEN TRUE ELSE NearV(b.obs, Obs(o), IF o.env = "mcar" THEN 101 ELSE 4, IF o.task \in {"rbf", "dblrbf"} THEN 64 ELSE 512), "observation") \cup
       If(b.fin \in Finishes(o), "end of the episode") \cup
       If(b.same, "looking changed the state") \cup
       If(~Restarts(o) \/ b.post = Start(o), "restart")
Look(o, b) == IF o.env \in {"xor", "chain"} THEN [s |-> o, bad |-> {}] ELSE
              LET bad == SeeBad(o, b) IN
              [s |-> IF o.task = "none" THEN o ELSE IF o.task = "min" THEN AfterFin([o EXCEPT !.ts = b.obs]) ELSE AfterFin(o), bad |-> bad]
(* the simple environment: an action takes effect when its sensors are read *)
SimpleRead(o, b) == IF ~o.pend THEN If(b.sens = o.s, "sensors without a new action")
                    ELSE If(NearV(b.sens, [k \in 1..o.dim |-> o.s[k] + (o.act[k] \div 10) + (IF b.z = <<>> THEN 0 ELSE Mul(b.z[k], o.len))], 3, 0), "sensors after an action")
CDo(o0, b) ==
  LET o == [o0 EXCEPT !.k = @ + 1]
      ok == b.err = ""
      Res(r) == IF ok THEN r ELSE [s |-> o, bad |-> {"raised " \o b.err}]
  IN CASE b.op = "new" -> Res(LET p == [o EXCEPT !.s = b.s] IN
                          IF o.env \in {"xor", "chain"} THEN [s |-> p, bad |-> {}]
                          ELSE [s |-> p, bad |-> If(Starts(o, b.s) /\ (o.env \in Twin => b.val = b.s[5]), "initial state")])
       [] b.op = "reset" -> Res(LET p == [Fresh(o) EXCEPT !.s = b.s, !.exact = FALSE, !.pend = FALSE, !.act = IF o.env = "simple" THEN [k \in 1..o.dim |-> 0] ELSE @]
                                    q == IF o.task = "none" \/ o.task = "min" \/ o.task = "quad" \/ o.env \in {"mcar", "acro", "single"} THEN [s |-> p, bad |-> {}] ELSE Look(p, b)
                                IN [q EXCEPT !.bad = @ \cup If(Starts(o, b.s) /\ (o.env \in Twin => b.val = b.s[5]), "initial state") \cup If(b.tot = 0, "total reward at the start")])
       [] b.op = "set" -> Res(Look([o EXCEPT !.s = b.s, !.exact = TRUE], b))
       [] b.op = "look" -> Res(Look(o, b))
       [] b.op = "max" -> Res(Look([o EXCEPT !.N = b.n], b))
       [] b.op = "act" -> Res(
            LET a == b.a IN
            CASE o.env \in {"mcar", "acro", "single"} ->
                   IF o.done > 0 THEN LET p == [o EXCEPT !.done = @ + 1] IN LET q == Look(p, b) IN [q EXCEPT !.bad = @ \cup If(b.s = o.s, "moved after the end")]
                   ELSE LET n == TLCEval(Moved(o, a, <<>>))
                            o1 == [o EXCEPT !.steps = @ + 1, !.exact = FALSE, !.s = b.s]
                            rs == IF o.env = "single" THEN <<IF Tame(o) THEN n[1] ELSE b.s[1], n[2], n[3], n[4]>> ELSE b.s
                            want == IF o.env = "single" THEN <<Pi, n[2], 0, n[4]>> ELSE n
                            outs == IF o.env = "single" /\ ~Tame(o) THEN {[r |-> b.rew, done |-> IF o1.steps >= o.max THEN 5 ELSE IF b.rew > 0 THEN 1 ELSE 0]} ELSE Outcomes(o1, rs)
                            fit == {x \in outs : Near(x.r, b.rew, 40, 64)}
                            x == IF fit = {} THEN CHOOSE y \in outs : TRUE ELSE CHOOSE y \in fit : TRUE
                            p == [o1 EXCEPT !.r = b.rew, !.done = x.done, !.cum = @ + b.rew]
                            q == Look(p, b)
                        IN [q EXCEPT !.bad = @ \cup If(fit # {}, "reward of the move") \cup If(InBounds(o, b.s), "bounds of the state")
                                               \cup If(~Tame(o) \/ NearS(o, b.s, want), "state after the move")
                                               \cup If(o.env # "single" \/ (b.s[1] = Pi /\ b.s[3] = 0), "fixed arm")]
              [] o.env \in {"xor", "chain"} ->
                   LET want == IF o.and THEN (IF o.obs[1] = 1 /\ o.obs[2] = 1 THEN 1 ELSE 0) ELSE (IF o.obs[1] # o.obs[2] THEN 1 ELSE 0)
                       good == a[1] = want
                       r == (IF o.env = "xor" THEN (IF good THEN 1 ELSE -1) ELSE IF good /\ o.counter >= o.cutoff THEN 1 ELSE -1) * One
                       p == [o EXCEPT !.r = r, !.cum = @ + (IF o.flip THEN -r ELSE r), !.counter = IF o.env = "xor" THEN @ ELSE IF good THEN Min2(@ + 1, 3) ELSE 0]
                   IN [s |-> p, bad |-> If(b.rew \in Rewards(p), "reward") \cup If(b.tot = p.cum, "total reward") \cup If(~b.fin, "end of a continuous task")]
              [] o.env = "simple" ->
                   LET p == [o EXCEPT !.act = a, !.pend = TRUE]
                       q == IF o.task = "none" THEN p ELSE [p EXCEPT !.samples = @ + 1, !.t = @ + 1, !.cum = @ + b.rew]
                   IN [s |-> q, bad |-> IF o.task = "none" THEN {} ELSE If(\E r \in Rewards(p) : Near(b.rew, r, IF o.task = "quad" THEN 20 ELSE 6, 256), "reward") \cup If(Near(b.tot, q.cum, 2, 4096), "total reward")]
              [] OTHER ->
                   LET f == IF o.env \in Poles THEN <<Force(o, a)>> ELSE <<>>
                       n == IF Tame(o) THEN TLCEval(Moved(o, a, b.z)) ELSE b.s
                       p == [o EXCEPT !.s = b.s, !.exact = FALSE, !.act = f, !.t = @ + 1, !.samples = @ + 1]
                       p2 == IF o.task = "none" THEN p ELSE [p EXCEPT !.cum = @ + Disc(p, b.rew)]
                       q == Look(p2, b)
                   IN [q EXCEPT !.bad = @ \cup If(NearS(o, b.s, n), "state after the action") \cup If(InBounds(o, b.s), "bounds of the state")])
       [] b.op = "read" -> Res([s |-> [o EXCEPT !.s = b.sens, !.pend = FALSE, !.ts = IF o.task = "min" THEN b.sens ELSE @], bad |-> SimpleRead(o, b) \cup If(b.same, "reading twice gave different sensors")])
       [] b.op = "fin" -> Res([s |-> AfterFin(o), bad |-> If(b.fin \in Finishes(o), "end of the episode")])
       [] b.op = "observe" -> Res(LET c == o.counter
                                      want == <<c % 2, (c \div 2) % 2, 1>>
                                  IN [s |-> [o EXCEPT !.obs = b.obs, !.counter = IF o.env = "xor" THEN @ + 1 ELSE @],
                                      bad |-> IF o.shuffled THEN If(b.obs \in {<<x, y, 1>> : x \in {0, 1}, y \in {0, 1}}, "observation") ELSE If(b.obs = want, "observation")])
       [] b.op = "eval" -> Res([s |-> o, bad |-> If(b.val = b.want, "evaluation of a controller")])
(* --------------------------------------------------------------- exploration *)
COps(o) == IF o.k >= o.depth THEN {} ELSE o.ops
CNext0(o0, op) ==
  LET o == [o0 EXCEPT !.k = @ + 1] IN
  CASE op.op = "reset" -> [Fresh(o) EXCEPT !.s = op.s]
    [] op.op = "set" -> [o EXCEPT !.s = op.s]
    [] op.op = "act" ->
         IF o.env \in {"mcar", "acro", "single"} THEN
           (IF o.done >= 3 THEN AfterFin(o) ELSE IF o.done > 0 THEN [o EXCEPT !.done = @ + 1] ELSE
            LET n == TLCEval(Moved(o, op.a, <<>>))
                o1 == [o EXCEPT !.steps = @ + 1, !.s = IF o.env = "single" THEN <<Pi, n[2], 0, n[4]>> ELSE n]
                x == CHOOSE y \in Outcomes(o1, n) : TRUE
            IN [o1 EXCEPT !.r = x.r, !.done = x.done, !.cum = @ + x.r])
         ELSE IF o.env \in {"xor", "chain"} THEN
           LET ob == <<o.counter % 2, (o.counter \div 2) % 2>>
               good == op.a[1] = (IF o.and THEN (IF ob = <<1, 1>> THEN 1 ELSE 0) ELSE IF ob[1] # ob[2] THEN 1 ELSE 0)
               r == (IF o.env = "xor" THEN (IF good THEN 1 ELSE -1) ELSE IF good /\ o.counter >= o.cutoff THEN 1 ELSE -1) * One
           IN [o EXCEPT !.r = r, !.cum = @ + r, !.counter = IF o.env = "xor" THEN (@ + 1) % 4 ELSE IF good THEN Min2(@ + 1, 3) ELSE 0]
         ELSE LET p == [o EXCEPT !.s = TLCEval(Moved(o, op.a, op.z)), !.t = @ + 1, !.samples = @ + 1, !.act = <<Force(o, op.a)>>]
              IN IF o.task = "none" THEN p ELSE [p EXCEPT !.cum = @ + Disc(p, CHOOSE r \in Rewards(p) : TRUE)]
=============================================================================
