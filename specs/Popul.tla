-------------------------------- MODULE Popul --------------------------------
(* Selection and replacement in hill climbing, memetic search, evolution strategies, the genetic algorithm and particle swarms.
   Evolvable candidates are known by their content; a variation (o = "m": mutation, "t": topology mutation, "r": randomisation) of a
   content p yields a new content c, copies share their content.  An evaluation is [c, p, o, v]: the content, what it was made of, and the
   integer value the objective returned (NAN: none).
   A learning step is judged against the state: the candidates the algorithm may stand on (cur, their value), or the population. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NOVAL == 1000000001
NAN == 1000000002
Range(q) == {q[k] : k \in DOMAIN q}
Abs(x) == IF x < 0 THEN -x ELSE x
Bad(ok, w) == IF ok THEN {} ELSE {w}
Better(c, v, w) == IF c.min THEN v < w ELSE v > w
AtLeast(c, v, w) == v = w \/ Better(c, v, w)
NoCur == [cs |-> {0}, v |-> NOVAL]
(* standing on cur, the candidate e was evaluated: with equal values both are acceptable *)
Move(c, cur, e) == IF e.v = NAN THEN cur
                   ELSE IF cur.v = NOVAL \/ Better(c, e.v, cur.v) THEN [cs |-> {e.c}, v |-> e.v]
                   ELSE IF e.v = cur.v THEN [cs |-> cur.cs \cup {e.c}, v |-> cur.v] ELSE cur
RECURSIVE MoveAll(_, _, _)
MoveAll(c, cur, es) == IF es = <<>> THEN cur ELSE MoveAll(c, Move(c, cur, es[1]), Tail(es))
(* a local hill climbing by variation o that starts with the evaluation es[1] *)
RECURSIVE Climbs(_, _, _, _)
Climbs(c, cur, es, o) == es = <<>> \/ (es[1].p \in cur.cs /\ es[1].o = o /\ Climbs(c, Move(c, cur, es[1]), Tail(es), o))
ClimbOk(c, es, o) == /\ Len(es) >= 1 /\ Len(es) <= c.local
                     /\ \A k \in 1..(Len(es) - 1) : es[k].v # NAN
                     /\ Len(es) = c.local \/ es[Len(es)].v = NAN
                     /\ Climbs(c, Move(c, NoCur, es[1]), Tail(es), o)
Outer(c) == IF c.inverse THEN "m" ELSE "t"
Inner(c) == IF c.inverse THEN "t" ELSE "m"
(* --------------------------------------------------------- hill climbing *)
HcStep(s, st) ==
  LET c == s.c  es == st.evals
      k == IF c.noisy THEN 2 ELSE 1
      cur0 == IF c.noisy THEN [cs |-> {es[1].c}, v |-> es[1].v] ELSE s.cur
      e == es[k]
      worse == Better(c, cur0.v, e.v)
      drift == c.kind = "shc" /\ worse /\ c.temp # "cold"
      cur1 == Move(c, cur0, e)
      cur2 == IF drift /\ st.best.c = e.c THEN [cs |-> {e.c}, v |-> e.v] ELSE cur1
  IN IF Len(es) # k THEN [s |-> s, bad |-> {"one challenger per step"}]
     ELSE [s |-> [s EXCEPT !.cur = cur2],
           bad |-> Bad(~c.noisy \/ (es[1].c \in s.cur.cs), "the current candidate is evaluated again")
                   \cup Bad(e.p \in cur0.cs /\ e.o = "m", "the challenger is a mutation of the current candidate")
                   \cup Bad(st.best.c \in cur2.cs /\ st.best.v = cur2.v, "the better one of the current candidate and its challenger stays")
                   \cup Bad(c.temp # "hot" \/ ~worse \/ st.best.c = e.c, "when it is hot enough every challenger is accepted")]
(* -------------------------------------------------------- random search *)
RsStep(s, st) ==
  LET es == st.evals cur1 == MoveAll(s.c, s.cur, es) IN
  [s |-> [s EXCEPT !.cur = cur1],
   bad |-> Bad(Len(es) = 1 /\ es[1].o = "r" /\ es[1].p = s.root, "every candidate is drawn afresh")
           \cup Bad(st.best.c \in cur1.cs /\ st.best.v = cur1.v, "the best candidate stays")]
(* -------------------------------------------------------- memetic search *)
MemStep(s, st) ==
  LET c == s.c es == st.evals cur1 == MoveAll(c, s.cur, es) IN
  [s |-> [s EXCEPT !.cur = cur1],
   bad |-> Bad(Len(es) >= 1 /\ es[1].p \in s.cur.cs /\ es[1].o = Outer(c), "the challenger is a variation of the best candidate so far")
           \cup Bad(ClimbOk(c, es, Inner(c)), "the challenger is improved by a local search with the other variation")
           \cup Bad(st.best.c \in cur1.cs /\ st.best.v = cur1.v, "the best candidate stays")]
(* ------------------------------------------------------------------- ES *)
(* population: a set of [c, v]; groups: the evaluations of one member (several, when a local search improves it) *)
BestOf(c, g) == LET cur == MoveAll(c, NoCur, g) IN cur.v
Member(c, g) == [c |-> g[1].c, v |-> BestOf(c, g)]
EsOp(c) == IF c.kind = "es" THEN "m" ELSE Outer(c)
GroupOk(c, g) == IF c.kind = "es" THEN Len(g) = 1 ELSE ClimbOk(c, g, Inner(c))
Top(c, pop, P) == \A a \in P : \A b \in pop \ P : AtLeast(c, a.v, b.v)
EsPopOk(c, pop, obs) == /\ Len(obs) = Cardinality(pop) /\ {[c |-> obs[k].c, v |-> obs[k].v] : k \in DOMAIN obs} = pop
                        /\ \A k \in 1..(Len(obs) - 1) : AtLeast(c, obs[k].v, obs[k + 1].v)
HofOk(c, pop, h) == \E a \in pop : a.c = h /\ \A b \in pop : AtLeast(c, a.v, b.v)
EsStep(s, st) ==
  LET c == s.c  gs == st.groups
      r == IF c.noisy THEN c.mu ELSE 0
      again == SubSeq(gs, 1, r)
      fresh == SubSeq(gs, r + 1, Len(gs))
      old == {a \in s.pop : \E k \in DOMAIN again : again[k][1].c = a.c}
      pop0 == (s.pop \ old) \cup {Member(c, again[k]) : k \in DOMAIN again}
      pc == {fresh[k][1].p : k \in DOMAIN fresh}
      P == {a \in pop0 : a.c \in pc}
      pop1 == (IF c.elit THEN P ELSE {}) \cup {Member(c, fresh[k]) : k \in DOMAIN fresh}
  IN IF Len(gs) # r + c.la THEN [s |-> s, bad |-> {"lambda children per step"}]
     ELSE [s |-> [s EXCEPT !.pop = pop1, !.nhof = @ + 1],
           bad |-> Bad(~c.noisy \/ (Cardinality(old) = c.mu /\ Top(c, s.pop, old)), "the parents are evaluated again")
                   \cup Bad(\A k \in DOMAIN gs : GroupOk(c, gs[k]), "local searches")
                   \cup Bad(\A k \in DOMAIN fresh : fresh[k][1].o = EsOp(c), "children are variations of parents")
                   \cup Bad(Cardinality(P) = c.mu /\ Cardinality(pc) = c.mu /\ Top(c, pop0, P), "the parents are the mu best members")
                   \cup Bad(\A q \in pc : Cardinality({k \in DOMAIN fresh : fresh[k][1].p = q}) = c.la \div c.mu, "every parent has the same number of children")
                   \cup Bad(EsPopOk(c, pop1, st.pop), "the population: children, and the parents in a plus strategy, best first")
                   \cup Bad(HofOk(c, pop1, st.hof), "the hall of fame")
                   \cup Bad(st.nhof = s.nhof + 1, "the size of the hall of fame")]
      
EsCreate(s, st) ==
  LET c == s.c  gs == st.groups
      pop1 == {Member(c, gs[k]) : k \in DOMAIN gs}
      n == c.la + (IF c.elit THEN c.mu ELSE 0)
  IN [s |-> [s EXCEPT !.pop = pop1, !.nhof = 1, !.root = gs[1][1].c],
      bad |-> Bad(Len(gs) = n /\ gs[1][1].c = st.init /\ \A k \in 2..Len(gs) : gs[k][1].p = st.init /\ (c.kind # "es" \/ gs[k][1].o = "m"), "the initial population: the initial candidate and mutations of it")
              \cup Bad(EsPopOk(c, pop1, st.pop), "the initial population, best first")
              \cup Bad(HofOk(c, pop1, st.hof) /\ st.nhof = 1, "the first entry of the hall of fame")]
(* ------------------------------------------------------------------- GA *)
(* an individual is [x, f, v]: alleles (numbers that identify the value within its dimension), coordinates in 4096ths, value *)
Sel(c) == (c.n * c.top) \div 100
Elite(c) == IF ~c.elit THEN 0 ELSE LET e == IF c.esize # -1 THEN c.esize ELSE (c.n * c.eprop) \div 100 IN IF e < Sel(c) THEN e ELSE Sel(c)
NBetter(c, pop, i) == Cardinality({j \in DOMAIN pop : Better(c, pop[j].v, pop[i].v)})
NAtLeast(c, pop, i) == Cardinality({j \in DOMAIN pop : AtLeast(c, pop[j].v, pop[i].v)})
May(c, pop, k) == {i \in DOMAIN pop : NBetter(c, pop, i) < k}
Must(c, pop, k) == {i \in DOMAIN pop : NAtLeast(c, pop, i) <= k}
Cnt(q, x) == Cardinality({j \in DOMAIN q : q[j].x = x})
EliteOk(c, pop, nxt) ==
  LET e == Elite(c)  head == SubSeq(nxt, 1, e) IN
  /\ \A j \in DOMAIN head : \E i \in May(c, pop, e) : pop[i].x = head[j].x
  /\ \A i \in Must(c, pop, e) : Cnt(head, pop[i].x) >= Cardinality({h \in Must(c, pop, e) : pop[h].x = pop[i].x})
Crossed(a, b, x) == \E m \in 1..(Len(x) - 1) : x = SubSeq(a, 1, m) \o SubSeq(b, m + 1, Len(b))
ChildOk(c, pop, x) ==
  LET par == May(c, pop, Sel(c)) IN
  IF Len(x) < 2 \/ Sel(c) < 2 THEN \E i \in par : pop[i].x = x
  ELSE \E i \in par : \E j \in par \ {i} : Crossed(pop[i].x, pop[j].x, x)
(* as many children as parents, an even number of unambiguous ones: every allele is passed on once *)
Passed(c, pop, nxt) ==
  LET e == Elite(c) k == Sel(c) par == Must(c, pop, k) IN
  (Cardinality(par) = k /\ k % 2 = 0 /\ k > 0 /\ c.n - e = k) =>
     \A d \in DOMAIN pop[1].x : \A a \in {pop[i].x[d] : i \in par} :
        Cardinality({i \in par : pop[i].x[d] = a}) = Cardinality({j \in (e + 1)..c.n : nxt[j].x[d] = a})
Inside(c, i) == c.bound = <<>> \/ \A d \in DOMAIN i.f : i.f[d] >= c.bound[d][1] - 1 /\ i.f[d] <= c.bound[d][2] + 1
GaStep(s, st) ==
  LET c == s.c  nxt == st.evals IN
  [s |-> [s EXCEPT !.gpop = nxt],
   bad |-> Bad(Len(nxt) = c.n, "the size of the population")
           \cup (IF s.gpop = <<>>
                 THEN Bad(st.init = <<>> \/ [k \in DOMAIN nxt |-> nxt[k].x] = st.init, "the given initial population is used")
                      \cup Bad(st.init # <<>> \/ \A k \in 2..Len(nxt) : Inside(c, nxt[k]), "the initial population is drawn within the bounds")
                 ELSE IF Len(nxt) # c.n THEN {}
                 ELSE Bad(EliteOk(c, s.gpop, nxt), "the elite survives unchanged")
                      \cup Bad(c.mut \/ \A k \in (Elite(c) + 1)..Len(nxt) : ChildOk(c, s.gpop, nxt[k].x), "children are crossings of two selected parents")
                      \cup Bad(c.mut \/ Passed(c, s.gpop, nxt), "the two children of a pair share its alleles")
                      \cup Bad(\A k \in (Elite(c) + 1)..Len(nxt) : ~c.mut \/ Inside(c, nxt[k]), "mutated children stay within the bounds"))]
(* ------------------------------------------------------------------ PSO *)
(* a particle is [x, v, b]: position, velocity, best position (512ths); evals[k] is the evaluation of particle k: [x, v] *)
Near(a, b, t) == Abs(a - b) <= t
VNear(a, b, t) == \A d \in DOMAIN a : Near(a[d], b[d], t)
Neighbours(c, k) == IF c.ring THEN {IF k = c.n THEN 1 ELSE k + 1, IF k = 1 THEN c.n ELSE k - 1} ELSE 1..c.n
BestNb(c, es, k) == {j \in Neighbours(c, k) : \A i \in Neighbours(c, k) : AtLeast(c, es[j].v, es[i].v)}
(* the velocity gains a fraction of at most w of the vector g *)
Pull(d, g, w) == /\ \A i \in DOMAIN d : IF g[i] >= 0 THEN d[i] >= -4 /\ 100 * d[i] <= w * g[i] + 400 ELSE d[i] <= 4 /\ 100 * d[i] >= w * g[i] - 400
                 /\ \A i, j \in DOMAIN d : Abs(d[i] * g[j] - d[j] * g[i]) <= 6 * (Abs(g[i]) + Abs(g[j]) + Abs(d[i]) + Abs(d[j])) + 40
Diff(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
PsoStep(s, st) ==
  LET c == s.c es == st.evals ps == st.parts
      old == s.parts
      (* best evaluated value of each particle, and where *)
      best == [k \in 1..c.n |-> IF s.pb[k].v = NOVAL \/ Better(c, es[k].v, s.pb[k].v) THEN [v |-> es[k].v, xs |-> {es[k].x}]
                                ELSE IF es[k].v = s.pb[k].v THEN [v |-> es[k].v, xs |-> s.pb[k].xs \cup {es[k].x}] ELSE s.pb[k]]
      acc == [k \in 1..c.n |-> [d \in DOMAIN ps[k].v |-> ps[k].v[d] - (c.inertia * old[k].v[d]) \div 100]]
  IN IF Len(es) # c.n \/ Len(ps) # c.n THEN [s |-> s, bad |-> {"every particle is evaluated once"}]
     ELSE [s |-> [s EXCEPT !.parts = ps, !.pb = best],
           bad |-> Bad(\A k \in 1..c.n : VNear(es[k].x, old[k].x, 1), "particles are evaluated at their positions")
                   \cup Bad(\A k \in 1..c.n : ps[k].bv = best[k].v /\ \E x \in best[k].xs : VNear(ps[k].b, x, 1), "the best position of a particle is the best it was evaluated at")
                   \cup Bad(\A k \in 1..c.n : ps[k].fv = es[k].v, "the fitness of a particle is that of its last evaluation")
                   \cup Bad(\A k \in 1..c.n : VNear(ps[k].x, [d \in DOMAIN ps[k].x |-> es[k].x[d] + ps[k].v[d]], 3), "particles move by their velocity")
                   \cup Bad(c.mem # 0 \/ \A k \in 1..c.n : \E j \in BestNb(c, es, k) : Pull(acc[k], Diff(es[j].x, es[k].x), c.soc), "particles are drawn to their best neighbour")
                   \cup Bad(c.soc # 0 \/ \A k \in 1..c.n : Pull(acc[k], Diff(ps[k].b, es[k].x), c.mem), "particles are drawn to their best position")]
PsoCreate(s, st) ==
  LET c == s.c ps == st.parts IN
  [s |-> [s EXCEPT !.parts = ps, !.pb = [k \in DOMAIN ps |-> [v |-> NOVAL, xs |-> {}]]],
   bad |-> Bad(Len(ps) = c.n /\ \A k \in DOMAIN ps : \A d \in DOMAIN ps[k].x : ps[k].v[d] = 0 /\ ps[k].x[d] >= c.bound[d][1] - 1 /\ ps[k].x[d] <= c.bound[d][2] + 1, "particles start at rest within the boundaries")]
(* ------------------------------------------------------------------------ *)
PInit0(c) == [c |-> c, cur |-> NoCur, root |-> 0, pop |-> {}, nhof |-> 0, gpop |-> <<>>, parts |-> <<>>, pb |-> <<>>]
PDo(s, st) ==
  IF st.err # "" THEN [s |-> s, bad |-> {"an operation fails"}]
  ELSE IF st.op = "create" THEN
       CASE s.c.kind \in {"es", "imem"} -> EsCreate(s, st)
         [] s.c.kind = "pso" -> PsoCreate(s, st)
         [] s.c.kind = "ga" -> [s |-> s, bad |-> {}]
         [] OTHER -> [s |-> [s EXCEPT !.cur = MoveAll(s.c, NoCur, st.evals), !.root = st.init],
                      bad |-> Bad(Len(st.evals) = 1 /\ st.evals[1].c = st.init, "the initial candidate is evaluated first")]
  ELSE IF st.op = "step" THEN
       CASE s.c.kind \in {"hc", "shc"} -> HcStep(s, st)
         [] s.c.kind = "rs" -> RsStep(s, st)
         [] s.c.kind = "mem" -> MemStep(s, st)
         [] s.c.kind \in {"es", "imem"} -> EsStep(s, st)
         [] s.c.kind = "ga" -> GaStep(s, st)
         [] OTHER -> PsoStep(s, st)
  ELSE (* "end": the variation operators are what they were *)
       [s |-> s, bad |-> Bad(st.restored, "the variation operators are restored")]
(* ---------------------------------------------------------- exploration *)
Vals == {0, 1}
Fresh(s) == 1 + (IF s.pop = {} THEN CHOOSE m \in s.cur.cs : \A k \in s.cur.cs : k <= m ELSE CHOOSE m \in {a.c : a \in s.pop} : \A a \in s.pop : a.c <= m)
POps(s) == {[v |-> q] : q \in [1..(IF s.c.kind = "es" THEN s.c.la ELSE 1) -> Vals]}
Parents(s) == CHOOSE P \in SUBSET s.pop : Cardinality(P) = s.c.mu /\ Top(s.c, s.pop, P)
PNext0(s, op) ==
  IF s.c.kind = "es"
  THEN LET f == Fresh(s) P == Parents(s)
           kids == {[c |-> f + k, v |-> op.v[k]] : k \in DOMAIN op.v}
       IN [s EXCEPT !.pop = IF s.c.elit THEN P \cup kids ELSE kids]
  ELSE [s EXCEPT !.cur = LET m == Move(s.c, @, [c |-> Fresh(s), v |-> op.v[1]]) IN [m EXCEPT !.cs = {CHOOSE x \in m.cs : \A y \in m.cs : y <= x}]]
GInit0(c) == [PInit0(c) EXCEPT !.cur = [cs |-> {1}, v |-> 0], !.pop = IF c.kind = "es" THEN {[c |-> k, v |-> 0] : k \in 1..(c.la + (IF c.elit THEN c.mu ELSE 0))} ELSE {}]
=============================================================================
