-------------------------------- MODULE Coev --------------------------------
(* Coevolution: players meet in tournaments, are scored by their results, selected and reproduced.
   c: kind "single" | "competitive" | "multi", n population size, sel number selected, ts tournament size, hof number of hall-of-fame
      games per player (an upper bound), elitism, shared (sampling of opponents), avg weight of the child in 4096ths (One: no averaging),
      abs weight of the absolute evaluation in 4096ths.
   State: pops the populations (the first is the one to be evaluated), res: <<p, o>> |-> sequence of the results of p playing o,
   hof the best of each generation, old the populations evaluated so far, gen, steps.  Players are numbers. *)
EXTENDS Fixed, FiniteSets
If(b, x) == IF b THEN {} ELSE {x}
Ran(q) == {q[k] : k \in DOMAIN q}
NoDup(q) == Cardinality(Ran(q)) = Len(q)
Games(s, p, o) == IF <<p, o>> \in DOMAIN s.res THEN s.res[<<p, o>>] ELSE <<>>
(* the observed score of p against o, both ways, in fixed point *)
Beats(s, p, o) == LET a == Games(s, p, o) z == Games(s, o, p) IN
                  IF a = <<>> THEN 0 ELSE LET d == SumSeq(a) - SumSeq(z) IN (IF d < 0 THEN -1 ELSE 1) * ((Abs(d) * One) \div (Len(a) + Len(z)))
SumBeats(s, p, q) == SumSeq([k \in DOMAIN q |-> Beats(s, p, q[k])])
RECURSIVE Seq2(_)
Seq2(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o Seq2(X \ {x})
RECURSIVE Play(_, _)
Play(res, calls) == IF calls = <<>> THEN res ELSE
  LET k == <<calls[1][1], calls[1][2]>> IN Play((k :> Append(IF k \in DOMAIN res THEN res[k] ELSE <<>>, calls[1][3])) @@ res, Tail(calls))
(* --------------------------------------------------------------- fitness *)
(* sharing: a beaten opponent is shared by all who beat it; the average is over the opponents met (without a tie) *)
Share(s, hosts, h, opps) ==
  LET won == {k \in DOMAIN opps : Beats(s, h, opps[k]) > 0}
      tied == {k \in DOMAIN opps : Beats(s, h, opps[k]) = 0}
      sum == SumSeq([k \in DOMAIN opps |-> IF k \in won THEN One \div Cardinality({g \in Ran(hosts) : Beats(s, g, opps[k]) > 0}) ELSE 0])
      n == Len(opps) - Cardinality(tied)
  IN IF n = 0 THEN sum ELSE sum \div n
Fitness(s, b, p, O) ==    \* s: with the results of this generation; O: the opponents of the tournament
  LET c == s.c  hosts == s.pops[1]
      hofn == Min2(s.gen + 1, c.hof)
      rel == CASE c.kind = "single" -> SumBeats(s, p, O) + (IF hofn > 0 THEN SumBeats(s, p, Seq2(Ran(s.hof))) ELSE 0)
               [] c.kind = "multi" -> SumSeq([k \in 1..Len(s.pops) - 1 |-> SumBeats(s, p, s.pops[k + 1])])
               [] c.kind = "competitive" -> (IF hofn > 0 THEN Min2(c.ts - hofn, Len(O)) * Share(s, hosts, p, s.pops[2]) + hofn * (IF s.hof = <<>> THEN 0 ELSE Share(s, hosts, p, s.hof))
                                             ELSE Share(s, hosts, p, s.pops[2]))
      a == (CHOOSE e \in Ran(b.absfit) : e[1] = p)[2] * One
  IN IF c.abs > 0 /\ c.kind # "competitive" THEN Mul(One - c.abs, rel) + Mul(c.abs, a) ELSE rel
(* ------------------------------------------------------------ tournaments *)
Count(calls, p, o) == Cardinality({k \in DOMAIN calls : calls[k][1] = p /\ calls[k][2] = o})
Wo(X, p) == X \ {p}
SumF(f) == LET q == Seq2(DOMAIN f) IN SumSeq([k \in DOMAIN q |-> f[q[k]]])
SizeOf(P, O, n) == SumF([p \in P |-> Min2(n, Cardinality(Wo(O, p)))])
(* hall-of-fame games: the competitive variant draws from all entries, the simple one from the distinct players *)
HofGames(s, P, n) == SumF([p \in P |-> Min2(n, IF s.c.kind = "single" THEN Cardinality(Wo(Ran(s.hof), p)) ELSE Cardinality({k \in DOMAIN s.hof : s.hof[k] # p}))])
(* greedy sampling: each next opponent beats most of what is still unbeaten *)
RECURSIVE Greedy(_, _, _, _)
Greedy(s, O, from, rel) ==
  \/ O = {}
  \/ LET won(p) == {o \in rel : Beats(s, p, o) > 0} IN
     \E x \in O : (\A y \in from : Cardinality(won(x)) >= Cardinality(won(y))) /\ Greedy(s, O \ {x}, from \ {x}, rel \ won(x))
(* possible opponent sets of this generation: before *)
Opponents(s, calls) ==
  LET c == s.c hofn == Min2(s.gen + 1, c.hof) tn == c.ts - hofn P == Ran(s.pops[1]) IN
  IF c.kind = "single" /\ c.shared
  THEN {O \in SUBSET P : /\ Cardinality(O) = tn /\ Greedy(s, O, P, P)
                         /\ \A p \in P : \A o \in Wo(P, p) : Count(calls, p, o) = (IF p \in O THEN 1 ELSE 0) + (IF o \in O THEN 1 ELSE 0)}
  ELSE IF c.kind = "competitive" /\ c.shared /\ s.gen >= 2
  THEN {O \in {{o \in Ran(s.pops[2]) : \E p \in P : Count(calls, p, o) > 0}} : Cardinality(O) = tn /\ Greedy(s, O, Ran(s.pops[2]), P)}
  ELSE {IF c.kind = "single" THEN P ELSE Ran(s.pops[2])}
CallsOk(s, calls, O) ==
  LET c == s.c hofn == Min2(s.gen + 1, c.hof) tn == c.ts - hofn P == Ran(s.pops[1]) H == Ran(s.hof)
      rest == UNION {LET q == s.pops[k] IN {q[j] : j \in 1..Max2(1, Len(q) \div 2)} : k \in 2..Len(s.pops)}
      X == IF c.kind = "multi" THEN rest ELSE O
  IN /\ \A k \in DOMAIN calls : calls[k][1] # calls[k][2] /\ ((calls[k][1] \in P /\ calls[k][2] \in X \cup (IF hofn > 0 THEN H ELSE {})) \/ (calls[k][2] \in P /\ calls[k][1] \in X \cup (IF hofn > 0 THEN H ELSE {})))
     /\ \A k \in DOMAIN calls : Count(calls, calls[k][1], calls[k][2]) = Count(calls, calls[k][2], calls[k][1])
     /\ IF c.kind = "multi"
        THEN \A k \in 2..Len(s.pops) : LET q == s.pops[k] m == Max2(1, Len(q) \div 2) IN \A p \in P : Cardinality({o \in {q[j] : j \in 1..m} : Count(calls, p, o) = 1}) = Min2(c.ts, m)
        ELSE /\ Len(calls) = 2 * SizeOf(P, O, Min2(tn, Cardinality(O))) + (IF hofn = 0 THEN 0 ELSE 2 * HofGames(s, P, hofn))
             /\ hofn = 0 => \A p \in P : Cardinality({o \in Wo(O, p) : Count(calls, p, o) > 0}) >= Min2(tn, Cardinality(Wo(O, p)))
(* ----------------------------------------------------------- a generation *)
Tol == 60
Selected(s, f, S) == /\ S \subseteq DOMAIN f /\ Cardinality(S) = s.c.sel /\ \A x \in S : \A y \in DOMAIN f \ S : f[x] + Tol >= f[y]
NearSeq(a, z, tol) == Len(a) = Len(z) /\ \A k \in DOMAIN a : Abs(a[k] - z[k]) <= tol
SortedDesc(q) == \A k \in 1..Len(q) - 1 : q[k] + 1 >= q[k + 1]
ResultsOk(t, b) ==   \* t: state with the new results
  /\ {<<e.p, e.o>> : e \in Ran(b.results)} = DOMAIN t.res
  /\ \A e \in Ran(b.results) : LET q == t.res[<<e.p, e.o>>] IN e.list = q /\ e.games = Len(q) /\ e.sum = SumSeq(q) /\ e.won = Cardinality({k \in DOMAIN q : q[k] > 0})
Child(s, e) == LET m == [k \in DOMAIN e.mid |-> Mul(s.c.avg, e.mid[k]) + Mul(One - s.c.avg, e.root[k])]
               IN NearSeq(e.params, IF s.c.avg = One THEN e.mid ELSE m, 3)
Rotate(s, nxt) ==
  CASE s.c.kind = "single" -> <<nxt>>
    [] s.c.kind = "competitive" -> <<s.pops[2], nxt>>
    [] s.c.kind = "multi" -> Append(Tail(s.pops), nxt)
Gen(s, b) ==
  LET c == s.c
      t == TLCEval([s EXCEPT !.res = Play(s.res, b.calls), !.steps = @ + Len(b.calls)])
      Os == Opponents(s, b.calls)
      P == Ran(s.pops[1])
      Fit(O) == TLCEval([p \in P |-> Fitness(t, b, p, Seq2(O))])
      good == {O \in Os : LET f == Fit(O) IN
                 /\ \A p \in P : f[b.best] + Tol >= f[p]
                 /\ Len(b.fits) = c.sel /\ SortedDesc(b.fits)
                 /\ \E S \in SUBSET P : /\ Selected(s, f, S) /\ Abs(SumSeq(b.fits) - SumF([x \in S |-> f[x]])) <= Tol * c.sel
                                        /\ \A k \in DOMAIN b.fits : \E x \in S : Abs(f[x] - b.fits[k]) <= Tol
                                        /\ (c.elitism => {b.next[k].id : k \in 1..c.sel} = S)
                                        /\ \A k \in DOMAIN b.next : b.next[k].rootid \in S}
      nxt == [k \in DOMAIN b.next |-> b.next[k].id]
  IN [s |-> [t EXCEPT !.pops = Rotate(s, nxt), !.hof = Append(@, b.best), !.old = Append(@, s.pops[1]), !.gen = @ + 1],
      bad |-> If(Os # {} /\ \E O \in Os : CallsOk(s, b.calls, O), "games of the tournament")
              \cup If(b.best \in P, "the hall of fame holds evaluated players")
              \cup If(b.best \notin P \/ good # {}, "fitness and selection")
              \cup If(ResultsOk(t, b), "stored results")
              \cup If(b.steps = t.steps /\ b.gen = s.gen + 1, "counters")
              \cup If(b.hofsize = Len(s.hof) + 1 /\ b.ret = b.best, "hall of fame")
              \cup If(Len(nxt) = c.n /\ NoDup(nxt), "population size")
              \cup If(\A k \in DOMAIN nxt : (c.elitism /\ k <= c.sel) \/ (nxt[k] \notin P /\ b.next[k].mutations = 1 /\ Child(s, b.next[k])), "children are mutated copies of the selected")
              \cup If(\A k \in DOMAIN nxt : c.elitism /\ k <= c.sel => b.next[k].params = b.next[k].root, "the elite is unchanged")
              \cup If(b.pops = Rotate(s, nxt), "populations and their roles")]
(* a whole run: stops within the limits, and no earlier than necessary *)
PerGen(c) == IF c.kind = "multi" THEN 2 * c.n * Min2(c.ts, Max2(1, c.n \div 2)) * (c.pops - 1) ELSE 2 * c.n * c.ts
Run(s, b) ==
  LET lim == b.maxsteps maxe == b.maxevals IN
  [s |-> [s EXCEPT !.steps = b.steps, !.gen = b.gen],
   bad |-> If(lim = 0 \/ b.steps <= s.steps + lim, "steps of one call") \cup If(maxe = 0 \/ b.steps <= maxe, "total evaluations") \cup If(b.maxgens = 0 \/ b.gen <= b.maxgens, "generations")
           \cup If((lim > 0 /\ b.steps + PerGen(s.c) > s.steps + lim) \/ (maxe > 0 /\ b.steps + PerGen(s.c) > maxe) \/ (b.maxgens > 0 /\ b.gen >= b.maxgens), "stopped early")
           \cup If(b.calls = b.steps, "every evaluation is counted")]
VInit0(c) == [c |-> c, pops |-> c.start, res |-> <<>>, hof |-> <<>>, old |-> <<>>, gen |-> 0, steps |-> 0]
VDo(s, b) ==
  IF b.err # "" THEN [s |-> s, bad |-> {"raised " \o b.err}] ELSE
  CASE b.op = "start" -> [s |-> s, bad |-> If(b.sizes, "sizes of the first populations") \cup If(b.roots, "the first populations come from the seeds") \cup If(b.seeds, "the list of seeds is unchanged")]
    [] b.op = "gen" -> Gen(s, b)
    [] b.op = "run" -> Run(s, b)
(* ------------------------------------- exploration: games of a few players with all results *)
VOps(s) == IF s.steps >= s.c.depth THEN {} ELSE {<<p, o, r>> : p \in 1..s.c.n, o \in 1..s.c.n, r \in {-1, 0, 2}} \ {<<p, p, r>> : p \in 1..s.c.n, r \in {-1, 0, 2}}
VNext0(s, e) == [s EXCEPT !.res = Play(@, <<e, <<e[2], e[1], s.c.back * e[3]>>>>), !.steps = @ + 2]
=============================================================================
