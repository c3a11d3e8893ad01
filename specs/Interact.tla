------------------------------ MODULE Interact ------------------------------
(* Agent-environment interaction.
   The logging agent is a machine: phase ph in {"idle","obs","act","rew"}, current observation o and action a, and the
   history h, a sequence of episodes, each a sequence of steps [o, a, r].
   An experiment is checked as a sequence of events between task, environment and agent:
     sense (environment sensors), integrate (what the agent observes), get (action the agent returns),
     perform (what the environment executes), give (reward the agent gets), reset, newep, learn.
   cfg: logging, sl/al sensor and actor limits (<<>> = no scaling; an entry <<>> = unlimited; units of 1/64), clip,
        disc (discount in 16ths, 0 = none), lens (lengths of the coming episodes). Values are fixed point (4096 = 1). *)
EXTENDS Fixed, FiniteSets
IInit(c) == [c |-> c, ph |-> "idle", o |-> <<>>, a |-> <<>>, h |-> <<>>, stp |-> 0, ep |-> 0]
Last(q) == q[Len(q)]
(* the history keeps appending to the last episode; a new episode is opened unless nothing has been stored at all *)
Put(h, x) == IF h = <<>> THEN <<<<x>>>> ELSE [h EXCEPT ![Len(h)] = Append(@, x)]
Open(h) == IF h = <<>> \/ h = <<<<>>>> THEN h ELSE Append(h, <<>>)
CanOpen(h) == h = <<>> \/ h = <<<<>>>> \/ Last(h) # <<>>
Allowed(s, op) == CASE op = "act" -> s.ph = "obs" [] op = "reward" -> s.ph = "act" [] op = "episode" -> CanOpen(s.h) [] OTHER -> TRUE
AgentNext(s, b) ==
  CASE b.op = "observe" -> [s EXCEPT !.ph = "obs", !.o = b.v]
    [] b.op = "act" -> [s EXCEPT !.ph = "act", !.a = b.v]
    [] b.op = "reward" -> [s EXCEPT !.ph = "rew", !.h = IF s.c.logging THEN Put(@, [o |-> s.o, a |-> s.a, r |-> b.v[1]]) ELSE @]
    [] b.op = "episode" -> [s EXCEPT !.h = IF s.c.logging THEN Open(@) ELSE @]
    [] b.op = "reset" -> [s EXCEPT !.ph = "idle", !.h = <<>>]
Norm1(v, l, clip) == LET x == (((v - 64 * l[1]) * 128) \div (l[2] - l[1])) - 4096
                     IN IF ~clip THEN x ELSE IF x > 4096 THEN 4096 ELSE IF x < -4096 THEN -4096 ELSE x
Norm(c, v) == IF c.sl = <<>> THEN v ELSE [k \in DOMAIN v |-> IF c.sl[k] = <<>> THEN v[k] ELSE Norm1(v[k], c.sl[k], c.clip)]
Denorm1(v, l, clip) == LET x == (((v + 4096) * (l[2] - l[1])) \div 128) + 64 * l[1]
                       IN IF ~clip THEN x ELSE IF x > 64 * l[2] THEN 64 * l[2] ELSE IF x < 64 * l[1] THEN 64 * l[1] ELSE x
Denorm(c, v) == IF c.al = <<>> THEN v ELSE [k \in DOMAIN v |-> IF c.al[k] = <<>> THEN v[k] ELSE Denorm1(v[k], c.al[k], c.clip)]
Close(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Abs(a[k] - b[k]) <= 2
(* ---------------------------------------------------- event automaton
   x: [p phase 0..5, v sensed, o observed, a action, h history, n interactions since reset, resets, eps, learns, bad, rws rewards per episode] *)
Ev(c, x, e) ==
  IF x.bad # {} THEN x ELSE
  LET fail == [x EXCEPT !.bad = {"order of the interaction: " \o e.e}] IN
  CASE e.e = "sense" -> IF x.p = 0 THEN [x EXCEPT !.p = 1, !.v = e.v] ELSE fail
    [] e.e = "integrate" -> IF x.p # 1 THEN fail ELSE IF ~Close(e.v, Norm(c, x.v)) THEN [x EXCEPT !.bad = {"observation of the agent"}]
                            ELSE [x EXCEPT !.p = 2, !.o = e.v]
    [] e.e = "get" -> IF x.p = 2 THEN [x EXCEPT !.p = 3, !.a = e.v] ELSE fail
    [] e.e = "perform" -> IF x.p # 3 THEN fail ELSE IF ~Close(e.v, Denorm(c, x.a)) THEN [x EXCEPT !.bad = {"action that is executed"}]
                          ELSE [x EXCEPT !.p = 4, !.r = e.r]
    [] e.e = "give" -> IF x.p # 4 THEN fail ELSE IF e.v # x.r THEN [x EXCEPT !.bad = {"reward that is given"}]
                       ELSE [x EXCEPT !.p = 0, !.n = @ + 1, !.tot = @ + 1, !.rws = IF @ = <<>> THEN <<<<x.r[1]>>>> ELSE [@ EXCEPT ![Len(@)] = Append(@, x.r[1])],
                                      !.h = IF c.logging THEN Put(@, [o |-> x.o, a |-> x.a, r |-> x.r[1]]) ELSE @]
    [] e.e = "reset" -> IF x.p = 0 THEN [x EXCEPT !.n = 0, !.resets = @ + 1, !.rws = Append(@, <<>>)] ELSE fail
    [] e.e = "newep" -> IF x.p # 0 THEN fail ELSE IF c.logging /\ ~CanOpen(x.h) THEN [x EXCEPT !.bad = {"new episode inside an episode"}]
                        ELSE [x EXCEPT !.eps = @ + 1, !.h = IF c.logging THEN Open(@) ELSE @]
    [] e.e = "clear" -> [x EXCEPT !.h = <<>>]
    [] e.e = "learn" -> IF x.p # 0 THEN fail
                        ELSE [x EXCEPT !.learns = Append(@, [at |-> x.tot, k |-> e.v[1], h |-> e.h]),
                                       !.bad = IF e.h = x.h \/ (x.h = <<>> /\ e.h = <<<<>>>>) THEN {} ELSE {"history the agent learns from"}]
    [] e.e = "drop" -> [x EXCEPT !.h = Tail(@)]
RECURSIVE Play(_, _, _, _)
Play(c, x, evs, k) == IF k > Len(evs) THEN x ELSE Play(c, TLCEval(Ev(c, x, evs[k])), evs, k + 1)
Start(s) == [p |-> 0, v |-> <<>>, o |-> <<>>, a |-> <<>>, r |-> <<>>, h |-> s.h, n |-> s.stp, tot |-> 0, resets |-> 0, eps |-> 0, learns |-> <<>>, rws |-> <<>>, bad |-> {}]
RECURSIVE Disc(_, _, _)
Disc(r, d, w) == IF r = <<>> THEN 0 ELSE ((Head(r) * w) \div 4096) + Disc(Tail(r), d, (w * d) \div 16)
(* the k-th reward of an episode is weighted with discount^k *)
Total(c, r) == IF c.disc = 0 THEN SumSeq(r) ELSE Disc(r, c.disc, (4096 * c.disc) \div 16)
If(b, x) == IF b THEN {} ELSE {x}
HistOk(h, real) == h = real \/ (h = <<>> /\ real = <<<<>>>>)
Flat2(h) == h
(* with queue experiments every "learn" is followed by dropping the oldest episode *)
RECURSIVE Dropped(_)
Dropped(evs) == IF evs = <<>> THEN <<>>
                ELSE IF Head(evs).e = "learn" THEN <<Head(evs), [e |-> "drop", v |-> <<>>, r |-> <<>>, h |-> <<>>]>> \o Dropped(Tail(evs))
                ELSE <<Head(evs)>> \o Dropped(Tail(evs))
RunStep(s, b) ==
  LET c == s.c
      x == Play(c, Start(s), IF b.kind = "queue" THEN Dropped(b.evs) ELSE b.evs, 1)
      lens == [k \in DOMAIN x.rws |-> Len(x.rws[k])]
      want == SubSeq(c.lens, s.ep + 1, s.ep + b.n + (IF b.kind = "queue" THEN b.cycles ELSE 0))
      bad == x.bad \cup
        (IF x.bad # {} THEN {} ELSE
         If(x.p = 0, "interaction is left incomplete")
         \cup If(HistOk(x.h, b.h), "history of the agent")
         \cup CASE b.kind = "inter" -> If(x.tot = b.n, "number of interactions") \cup If(b.ret = s.stp + b.n, "step counter")
                                       \cup If(x.resets = 0 /\ x.eps = 0 /\ x.learns = <<>>, "only interactions")
                [] b.kind = "cont" -> If(x.tot = b.n, "number of interactions") \cup If(b.ret = s.stp + b.n, "step counter")
                                      \cup If([k \in DOMAIN x.learns |-> x.learns[k].at] = [k \in 1..b.n |-> k], "learning after every interaction")
                                      \cup If(\A k \in DOMAIN x.learns : x.learns[k].k = 1, "one learning step")
                [] b.kind = "eps" -> If(x.resets = b.n /\ x.eps = b.n, "one reset and one new episode per episode")
                                     \cup If(lens = want, "episodes end exactly when the task is finished")
                                     \cup If(b.rets = x.rws, "rewards of the episodes")
                                     \cup If(b.ret = IF b.n = 0 THEN s.stp ELSE x.n, "step counter")
                                     \cup If(x.learns = <<>>, "only interactions")
                                     \cup If(b.n = 0 \/ Abs(b.cum - Total(c, Last(x.rws))) <= 8, "cumulative reward")
                [] b.kind = "queue" -> If(x.resets = b.n + b.cycles /\ x.eps = b.n + b.cycles, "one episode per learning cycle")
                                       \cup If(lens = want, "episodes end exactly when the task is finished")
                                       \cup If(Len(x.learns) = b.cycles /\ \A k \in DOMAIN x.learns : Len(x.learns[k].h) = b.n, "length of the queue")
                                       \cup If(\A k \in DOMAIN x.learns : x.learns[k].k = 1, "one learning step"))
  IN [s |-> [s EXCEPT !.h = x.h, !.stp = x.n, !.ep = @ + x.resets], bad |-> bad]
(* fitness of a module or agent: average total reward of batchSize episodes *)
FitStep(s, b) ==
  LET tot == SumSeq([k \in DOMAIN b.rets |-> Total(s.c, b.rets[k])])
      lens == [k \in DOMAIN b.rets |-> Len(b.rets[k])]
  IN [s |-> [s EXCEPT !.ep = @ + b.n],
      bad |-> If(Len(b.rets) = b.n, "number of episodes") \cup If(lens = SubSeq(s.c.lens, s.ep + 1, s.ep + b.n), "length of the episodes")
              \cup If(Abs(b.cum * b.n - tot) <= 8 * b.n, "fitness is the average total reward")
              \cup If(b.fresh, "module is reset before every episode")]
IDo(s, b) ==
  CASE b.op = "run" -> IF b.err # "" THEN [s |-> s, bad |-> {"raised " \o b.err}] ELSE RunStep(s, b)
    [] b.op = "fit" -> IF b.err # "" THEN [s |-> s, bad |-> {"raised " \o b.err}] ELSE FitStep(s, b)
    [] b.op = "learn" -> [s |-> s, bad |-> If(b.err = "", "raised " \o b.err) \cup If(b.n = b.want, "number of learning episodes")]
    [] OTHER -> IF Allowed(s, b.op)
                THEN LET n == AgentNext(s, b) IN
                     [s |-> n, bad |-> IF b.err # "" THEN {"raised " \o b.err} ELSE If(HistOk(n.h, b.h), "history of the agent")]
                ELSE [s |-> s, bad |-> If(b.err # "", b.op \o " out of turn is not refused") \cup If(b.op = "episode" \/ HistOk(s.h, b.h), "history of the agent")]
(* ------------------------------------------------------------ exploration *)
IOps(s) == IF Len(s.h) + SumSeq([k \in DOMAIN s.h |-> Len(s.h[k])]) > s.c.bound THEN {}
           ELSE {[op |-> "observe", v |-> <<v>>] : v \in {0, 4096}} \cup {[op |-> "act", v |-> <<v>>] : v \in {0, 8192}} \cup {[op |-> "reward", v |-> <<v>>] : v \in {-4096}}
                \cup {[op |-> "episode", v |-> <<0>>], [op |-> "reset", v |-> <<0>>]}
INext0(s, op) == IF Allowed(s, op.op) THEN AgentNext(s, op) ELSE s
NoEmpty(s) == \A k \in 1..(Len(s.h) - 1) : s.h[k] # <<>>
PhaseInv(s) == (s.ph = "rew" /\ s.c.logging) => (s.h # <<>>)
=============================================================================
