------------------------------- MODULE Evolino -------------------------------
(* Evolino: a recurrent LSTM network whose outputs are fed back, and its evolution.
   Numbers are in 4096ths.  A network: d outputs, h cells; in, bias, rec: the matrices into the 4h gate inputs (in-gates, forget gates, cells, out-gates); w: the output matrix.
   Its genome has one chromosome per cell: for each of the four gates, the weights of every connection (in a fixed order), source by source. *)
EXTENDS Fixed, FiniteSets
If(b, x) == IF b THEN {} ELSE {x}
ZeroV(n) == [k \in 1..n |-> 0]
ZeroM(a, b) == [i \in 1..a |-> ZeroV(b)]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Dot(a, b) == SumSeq([k \in DOMAIN a |-> Mul(a[k], b[k])])
MatVec(m, x) == [i \in DOMAIN m |-> Dot(m[i], x)]
AddV(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
(* ----------------------------------------------------------------- genome *)
Src(n, c) == CASE c = "in" -> n.d [] c = "bias" -> 1 [] c = "rec" -> n.h
ToGenome(n) == [cell \in 1..n.h |-> Cat([t \in 1..4 |-> Cat([c \in 1..3 |-> n.m[n.order[c]][cell + (t - 1) * n.h]])])]
(* position of the weight from source i of connection number c into gate t within the chromosome *)
Off(n, c) == SumSeq([k \in 1..c - 1 |-> Src(n, n.order[k])])
PerGate(n) == n.d + 1 + n.h
FromGenome(n, g) == [n EXCEPT !.m = [name \in {"in", "bias", "rec"} |->
                       LET c == CHOOSE c \in 1..3 : n.order[c] = name
                       IN [row \in 1..4 * n.h |-> LET t == (row - 1) \div n.h
                                                      cell == ((row - 1) % n.h) + 1
                                                  IN [i \in 1..Src(n, name) |-> g[cell][(t * PerGate(n)) + Off(n, c) + i]]]]]
(* ------------------------------------------------------------- activation *)
Fresh(n) == [c |-> ZeroV(n.h), y |-> ZeroV(n.h), last |-> ZeroV(n.d)]
Step(n, a) ==
  LET inp == TLCEval([k \in 1..n.d |-> Mul(n.factor, a.last[k])])
      z == TLCEval([r \in 1..4 * n.h |-> Dot(n.m["in"][r], inp) + n.m["bias"][r][1] + Dot(n.m["rec"][r], a.y)])
      c == TLCEval([k \in 1..n.h |-> Mul(Sig(z[k]), Tanh(z[2 * n.h + k])) + Mul(Sig(z[n.h + k]), a.c[k])])
      y == TLCEval([k \in 1..n.h |-> Mul(Sig(z[3 * n.h + k]), Tanh(c[k]))])
  IN [c |-> c, y |-> y, last |-> TLCEval(MatVec(n.w, y))]
(* processing a sequence with the true values fed back: the states after each step *)
RECURSIVE Wash(_, _, _)
Wash(n, a, q) == IF q = <<>> THEN <<>> ELSE LET b == TLCEval([Step(n, a) EXCEPT !.last = Head(q)]) IN <<b>> \o Wash(n, b, Tail(q))
RECURSIVE Gen(_, _, _)
Gen(n, a, k) == IF k = 0 THEN <<>> ELSE LET b == TLCEval(Step(n, a)) IN <<b>> \o Gen(n, b, k - 1)
After(a, q) == IF q = <<>> THEN a ELSE q[Len(q)]
Extra(n, q, k) == Gen(n, After(Fresh(n), Wash(n, Fresh(n), q)), k)
Ys(q) == [k \in DOMAIN q |-> q[k].y]
Outs(q) == [k \in DOMAIN q |-> q[k].last]
NearM(a, b, tol, rel) == Len(a) = Len(b) /\ \A k \in DOMAIN b : NearV(a[k], b[k], tol, rel)
(* --------------------------------------------------------------- training *)
(* the washout is the given fraction num/den of a sequence *)
WashLen(c, q) == (c.num * Len(q)) \div c.den
WashPart(c, q) == SubSeq(q, 1, WashLen(c, q))
TrainPart(c, q) == SubSeq(q, WashLen(c, q) + 1, Len(q))
BurstDue(s) == s.burst >= 0 /\ s.total + 1 - s.maxep >= s.burst
Trained(s, best) ==      \* an epoch whose best individual has fitness best
  LET t == [s EXCEPT !.total = @ + 1, !.maxep = IF BurstDue(s) THEN s.total + 1 ELSE @]
  IN IF t.maxf = <<>> \/ t.maxf[1] < best THEN [t EXCEPT !.maxf = <<best>>, !.maxep = t.total] ELSE t
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
(* ------------------------------------------------------------------ traces *)
EInit0(c) == [c |-> c, k |-> 0,
              n |-> [d |-> c.d, h |-> c.h, order |-> c.order, factor |-> c.factor, w |-> ZeroM(c.d, c.h),
                     m |-> [name \in {"in", "bias", "rec"} |-> ZeroM(4 * c.h, IF name = "in" THEN c.d ELSE IF name = "bias" THEN 1 ELSE c.h)]],
              a |-> [c |-> ZeroV(c.h), y |-> ZeroV(c.h), last |-> ZeroV(c.d)],
              total |-> 0, maxep |-> 0, maxf |-> <<>>, burst |-> c.burst]
Small(m, b) == \A i \in DOMAIN m : \A j \in DOMAIN m[i] : Abs(m[i][j]) <= b
Mats(b) == [name \in {"in", "bias", "rec"} |-> CASE name = "in" -> b.inm [] name = "bias" -> b.biasm [] OTHER -> b.recm]
(* one recorded evaluation: targets, outputs given the output weights, and their optimality *)
EvalBad(s, e) ==
  LET c == s.c
      n == TLCEval(FromGenome([s.n EXCEPT !.w = e.w], e.genome))
      outs == TLCEval(Cat([k \in DOMAIN c.data |-> TLCEval(Outs(Extra(n, WashPart(c, c.data[k]), Len(TrainPart(c, c.data[k])))))]))
  IN If(e.tgt = Cat([k \in DOMAIN c.data |-> TrainPart(c, c.data[k])]), "evaluated targets") \cup
     If(\A k \in DOMAIN e.orth : Abs(e.orth[k]) <= 2, "output weights are not the least-squares solution") \cup
     (IF Small(e.w, 12 * One) /\ Small(e.genome, 4 * One) THEN If(NearM(e.out, outs, 160, 64), "evaluated outputs") ELSE If(Len(e.out) = Len(e.tgt), "evaluated outputs"))
EDo(s0, b) ==
  LET s == [s0 EXCEPT !.k = @ + 1]
      ok == b.err = ""
      bad0 == If(ok, "raised " \o b.err)
      Res(t, bad) == [s |-> t, bad |-> bad0 \cup (IF ok THEN bad ELSE {})]
  IN CASE b.op = "setgenome" -> LET n == TLCEval(FromGenome(s.n, b.g))
                                IN Res([s EXCEPT !.n = n], If(Mats(b) = n.m, "weights of the genome") \cup If(b.same, "genome modified"))
       [] b.op = "getgenome" -> Res(s, If(b.g = ToGenome(s.n), "genome") \cup If(Mats(b) = s.n.m, "weights changed"))
       [] b.op = "setw" -> Res([s EXCEPT !.n.w = b.w], If(b.got = b.w, "output weights"))
       [] b.op = "getw" -> Res(s, If(b.got = s.n.w, "output weights"))
       [] b.op = "factor" -> Res([s EXCEPT !.n.factor = b.v], {})
       [] b.op = "reset" -> Res([s EXCEPT !.a = Fresh(s.n)], {})
       [] b.op = "activate" -> [s |-> s, bad |-> If(b.err = "NotImplementedError", "activated directly")]
       [] b.op = "washout" -> LET q == TLCEval(Wash(s.n, s.a, b.seq)) IN Res([s EXCEPT !.a = After(s.a, q)], If(NearM(b.res, Ys(q), 40, 128), "raw outputs") \cup If(b.same, "sequence modified"))
       [] b.op = "generate" -> LET q == TLCEval(Gen(s.n, s.a, b.n)) IN Res([s EXCEPT !.a = After(s.a, q)], If(NearM(b.res, Outs(q), 100, 64), "generated sequence"))
       [] b.op = "extrapolate" -> LET q == TLCEval(Extra(s.n, b.seq, b.n))
                                      t == Wash(s.n, Fresh(s.n), b.seq)
                                  IN Res([s EXCEPT !.a = After(After(Fresh(s.n), t), q)], If(NearM(b.res, Outs(q), 100, 64), "extrapolated sequence") \cup If(b.same, "sequence modified"))
       [] b.op = "train" ->
            LET fits == {b.evals[k].fit : k \in DOMAIN b.evals}
                best == MaxOf(fits)
                t == Trained(s, best)
                calls == (IF BurstDue(s) THEN <<"burst">> ELSE <<>>) \o <<"select", "reproduce">>
            IN IF ~ok THEN [s |-> s, bad |-> bad0] ELSE
               Res(t, If(b.calls = calls, "order of the operators") \cup
                      If(Len(b.evals) = s.c.ncomb * s.c.size, "number of evaluations") \cup
                      If(b.maxf = best, "fitness of the best individual") \cup
                      If(b.total = t.total, "epochs") \cup
                      If(b.after = s.c.size /\ b.between = s.c.parents, "sizes of the sub-populations") \cup
                      If(b.factor = s.n.factor, "feedback factor") \cup
                      (* the network is left with the genome and output weights of a best individual *)
                      If(\E k \in DOMAIN b.evals : b.evals[k].fit = best /\ b.evals[k].genome = b.genome /\ b.evals[k].w = b.w, "network left after training") \cup
                      UNION {EvalBad(s, b.evals[k]) : k \in {k \in DOMAIN b.evals : k <= 2}})
(* --------------------------------------------------------------- exploration *)
EOps(s) == IF s.k >= s.c.depth THEN {} ELSE
  IF s.c.kind = "train" THEN {[op |-> "train", best |-> v] : v \in s.c.vals} ELSE
  {[op |-> "setgenome", seed |-> v] : v \in s.c.seeds} \cup {[op |-> "setw", seed |-> v] : v \in s.c.seeds} \cup
  {[op |-> o] : o \in {"getgenome", "getw", "reset"}} \cup
  {[op |-> "washout", seq |-> q] : q \in s.c.seqs} \cup {[op |-> "generate", n |-> k] : k \in {1, 2}} \cup {[op |-> "extrapolate", seq |-> q, n |-> 2] : q \in s.c.seqs}
(* a varied genome and output matrix for each seed *)
SeedG(n, v) == [cell \in 1..n.h |-> [k \in 1..4 * PerGate(n) |-> (((cell * 37 + k * 13 + v * 29) % 17) - 8) * 256]]
SeedW(n, v) == [i \in 1..n.d |-> [j \in 1..n.h |-> (((i * 5 + j * 7 + v * 3) % 9) - 4) * 512]]
ENext0(s0, op) ==
  LET s == [s0 EXCEPT !.k = @ + 1]
  IN CASE op.op = "train" -> Trained(s, op.best)
       [] op.op = "setgenome" -> [s EXCEPT !.n = TLCEval(FromGenome(s.n, SeedG(s.n, op.seed)))]
       [] op.op = "setw" -> [s EXCEPT !.n.w = TLCEval(SeedW(s.n, op.seed))]
       [] op.op = "reset" -> [s EXCEPT !.a = Fresh(s.n)]
       [] op.op = "washout" -> [s EXCEPT !.a = After(s.a, TLCEval(Wash(s.n, s.a, op.seq)))]
       [] op.op = "generate" -> [s EXCEPT !.a = After(s.a, TLCEval(Gen(s.n, s.a, op.n)))]
       [] op.op = "extrapolate" -> [s EXCEPT !.a = After(Fresh(s.n), TLCEval(Wash(s.n, Fresh(s.n), op.seq) \o Extra(s.n, op.seq, op.n)))]
       [] OTHER -> s
=============================================================================
