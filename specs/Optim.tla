-------------------------------- MODULE Optim --------------------------------
(* The record a black-box optimizer keeps of its evaluations, and its stopping rule.
   An evaluation is <<point, value>>: an identity of the point the objective received and the integer value it returned
   (NAN: the objective returned no number, and the run ends without counting it).
   Learning proceeds in steps; a step may begin when the evaluations it needs (batch) are still allowed, the number of steps is below
   the limit and the desired value has not been reached.
   Some algorithms evaluate initial points when they are constructed (they are logged and counted).
   Configuration: min (requested direction), batch (evaluations of a step; -1: up to most), bmax (evaluations a step may need), init (initial
   evaluations; -1: unspecified), maxEv, maxSt (-1: none), desired (NOVAL: none),
   conv (the algorithm may stop on its own), drift (the reported best is the current point, not the best one), slack (evaluations by which
   the last step may exceed the limit). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NOVAL == 1000000001
NAN == 1000000002
Range(q) == {q[k] : k \in DOMAIN q}
Better(c, v, w) == IF c.min THEN v < w ELSE v > w
AtLeast(c, v, w) == v = w \/ Better(c, v, w)
OInit0(c) == [c |-> c, log |-> <<>>, n |-> 0, steps |-> 0, maxSt |-> c.maxSt, best |-> NOVAL, reach |-> FALSE, run |-> FALSE, over |-> FALSE]
Reached(c, v) == c.desired # NOVAL /\ v # NOVAL /\ AtLeast(c, v, c.desired)
(* the current value an algorithm that drifts may have is unknown: the desired value may be reached and left again *)
MustStop(s) == \/ s.n + s.c.bmax > s.c.maxEv
               \/ s.maxSt # -1 /\ s.steps >= s.maxSt
               \/ ~s.c.drift /\ Reached(s.c, s.best)
MayStop(s) == MustStop(s) \/ s.c.conv \/ s.over \/ (s.c.drift /\ Reached(s.c, s.best))
Eval(s, e) == IF e[2] = NAN THEN [s EXCEPT !.over = TRUE]
              ELSE [s EXCEPT !.log = Append(@, e), !.n = @ + 1, !.best = IF @ = NOVAL \/ Better(s.c, e[2], @) THEN e[2] ELSE @]
RECURSIVE EvalAll(_, _)
EvalAll(s, es) == IF es = <<>> THEN s ELSE EvalAll(Eval(s, es[1]), Tail(es))
Bad(ok, w) == IF ok THEN {} ELSE {w}
(* the best pair an optimizer reports *)
BestOk(s, b) == IF s.n = 0 THEN b[2] = NOVAL
                ELSE /\ b \in Range(s.log)
                     /\ s.c.drift \/ b[2] = s.best
LogsOk(s, o) == /\ s.c.logv => o.logV = [k \in DOMAIN s.log |-> s.log[k][2]]
                /\ s.c.logi => o.logI = [k \in DOMAIN s.log |-> s.log[k][1]]
ObsBad(s, o) == Bad(o.ne = s.n, "the number of evaluations is the number of calls")
                \cup Bad(o.ns = s.steps, "the number of learning steps")
                \cup Bad(BestOk(s, o.best), "the reported best is the best evaluation, with its own point")
                \cup Bad(LogsOk(s, o), "the logs list every evaluation in order")
                \cup Bad(o.same, "the initial evaluable of the caller is left alone")
                \cup Bad(o.kept, "results reported earlier do not change")
NumOk(s, m) == IF s.c.batch = -1 THEN m <= s.c.most ELSE m = s.c.batch
Same(s, neg, es0) == LET es == SelectSeq(es0, LAMBDA e : e[2] # NAN) IN es = [k \in DOMAIN s.log |-> <<s.log[k][1], IF neg THEN -s.log[k][2] ELSE s.log[k][2]>>]
ODo(s, st) ==
  LET c == s.c IN
  CASE st.op = "create" ->
         LET s1 == EvalAll(s, st.evals) IN
         [s |-> s1, bad |-> Bad(st.err = "", "constructed") \cup Bad(c.init = -1 \/ Len(st.evals) = c.init, "the initial evaluations") \cup ObsBad(s1, st.obs)]
    [] st.op = "learn" ->
         [s |-> [s EXCEPT !.run = TRUE, !.over = FALSE, !.maxSt = IF st.add = -1 THEN @ ELSE s.steps + st.add], bad |-> {}]
    [] st.op = "step" ->    \* a completed learning step
         LET s1 == EvalAll(s, st.evals) IN
         [s |-> [s1 EXCEPT !.steps = @ + 1],
          bad |-> Bad(~MustStop(s), "learning goes on although it has to stop")
                  \cup Bad(NumOk(s, Len(st.evals)), "the evaluations of a step")
                  \cup Bad(s1.n <= c.maxEv + c.slack, "the limit on evaluations")
                  \cup Bad(~s1.over, "a step is not completed after an undefined value")]
    [] st.op = "end" ->     \* learn() returned; evals: those of a step that was broken off
         LET s1 == EvalAll(s, st.evals) IN
         [s |-> [s1 EXCEPT !.run = FALSE],
          bad |-> Bad(st.err = "", "learning ends regularly")
                  \cup Bad(st.evals = <<>> \/ s1.over \/ c.conv, "steps are completed")
                  \cup Bad(st.evals = <<>> \/ ~MustStop(s), "learning goes on although it has to stop")
                  \cup Bad(MayStop(s1), "learning stops only for a reason")
                  \cup ObsBad(s1, st.obs)]
    [] OTHER ->             \* "twin": the same run in another guise
         [s |-> s, bad |-> Bad(st.err = "", "the other form runs")
                           \cup Bad(Same(s, st.neg, st.evals), "both forms of the problem are searched alike")
                           \cup Bad(s.n = 0 \/ st.best[2] = NOVAL \/ <<st.best[1], IF st.neg THEN -st.best[2] ELSE st.best[2]>> \in Range(s.log), "both forms report a value of the problem")]
(* ---------------------------------------------------------- exploration *)
Vals == {-1, 0, 1}
OOps(s) ==
  (IF ~s.run THEN {[op |-> "learn", add |-> a, vals |-> <<>>] : a \in {-1, 0, 1, 2}} ELSE {})
  \cup (IF s.run /\ ~MustStop(s) /\ ~s.over THEN {[op |-> "step", add |-> 0, vals |-> v] : v \in [1..s.c.batch -> Vals \cup (IF s.c.nan THEN {NAN} ELSE {})]} ELSE {})
  \cup (IF s.run /\ (MustStop(s) \/ s.over) THEN {[op |-> "end", add |-> 0, vals |-> <<>>]} ELSE {})
Pts(s, v) == [k \in 1..Len(v) |-> <<s.n + k, v[k]>>]
RECURSIVE UpToNan(_)
UpToNan(v) == IF v = <<>> THEN v ELSE IF v[1] = NAN THEN <<NAN>> ELSE <<v[1]>> \o UpToNan(Tail(v))
ONext0(s, op) ==
  IF op.op = "learn" THEN ODo(s, [op |-> "learn", add |-> op.add]).s
  ELSE IF op.op = "step" THEN LET e == EvalAll(s, Pts(s, UpToNan(op.vals))) IN IF e.over THEN e ELSE [e EXCEPT !.steps = @ + 1]
  ELSE [s EXCEPT !.run = FALSE]
GInit0(c) == EvalAll(OInit0(c), Pts([n |-> 0], c.initv))
=============================================================================
