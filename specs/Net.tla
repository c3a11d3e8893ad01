-------------------------------- MODULE Net --------------------------------
(* Networks of modules and connections over the integers.
   A structure (cfg) is
     kind  "ff" | "rec" | "forget"
     mods  sequence of [k, n]: k in lin, relu, mul (2n inputs, n outputs), bias; n output size
     ins, outs  sequences of module numbers
     conns sequence of [t, a, b, a0, a1, b0, b1, g, rec, perm, bs]:
           t in full, id, lin, perm, fns (full, no diagonal), sub (subsampling average)
           from outputs a0+1..a1 of module a to inputs b0+1..b1 of module b,
           g its parameter group (0: none; shared groups appear in several connections),
           rec: delayed by one time step;  perm, bs: permutation (0-based) of blocks of size bs
     groups sizes of the parameter groups;  w0 their initial values
     na    number of connections present at first (the rest is added by "extend")
     ord   <<order of the groups in the parameter vector at first, and after "extend">>
   Nested networks appear flattened: an input/output port is a lin module. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sum(f) == LET RECURSIVE S(_)
              S(D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + S(D \ {x})
          IN S(DOMAIN f)
Zero(n) == [k \in 1..n |-> 0]
Range(q) == {q[k] : k \in DOMAIN q}
InDim(m) == CASE m.k = "mul" -> 2 * m.n [] m.k = "bias" -> 0 [] OTHER -> m.n
Mods(net) == DOMAIN net.mods
Act(s) == 1..s.na
Preds(s, m) == {s.net.conns[c].a : c \in {x \in Act(s) : s.net.conns[x].b = m /\ ~s.net.conns[x].rec}}
(* a graph is acyclic iff modules can be removed one by one when all their predecessors are gone *)
RECURSIVE Peel(_, _)
Peel(s, done) == LET r == {m \in Mods(s.net) \ done : Preds(s, m) \subseteq done}
                 IN IF r = {} THEN done ELSE Peel(s, done \cup r)
Acyclic(s) == Peel(s, {}) = Mods(s.net)

Fl(m, x) == CASE m.k = "relu" -> [i \in 1..m.n |-> IF x[i] > 0 THEN x[i] ELSE 0]
              [] m.k = "mul" -> [i \in 1..m.n |-> x[i] * x[i + m.n]]
              [] m.k = "bias" -> [i \in 1..m.n |-> 1]
              [] OTHER -> x
(* derivative: from input x and output error e to the input error *)
Fd(m, x, e) == CASE m.k = "relu" -> [i \in 1..m.n |-> IF x[i] > 0 THEN e[i] ELSE 0]
                 [] m.k = "mul" -> [i \in 1..(2 * m.n) |-> IF i <= m.n THEN x[i + m.n] * e[i] ELSE x[i - m.n] * e[i - m.n]]
                 [] m.k = "bias" -> <<>>
                 [] OTHER -> e
(* weight applied by connection c from its i-th input to its j-th output (both 1-based in the slice) *)
Coef(c, w, i, j) ==
  LET di == c.a1 - c.a0 IN
  CASE c.t = "full" -> w[c.g][(j - 1) * di + i]
    [] c.t = "fns" -> IF i = j THEN 0 ELSE w[c.g][(j - 1) * di + i]
    [] c.t = "id" -> IF i = j THEN 1 ELSE 0
    [] c.t = "lin" -> IF i = j THEN w[c.g][j] ELSE 0
    [] c.t = "perm" -> IF i - 1 = c.perm[((j - 1) \div c.bs) + 1] * c.bs + ((j - 1) % c.bs) THEN 1 ELSE 0
    [] c.t = "sub" -> 0
Fwd(c, w, src) ==  \* contribution to the target slice
  LET di == c.a1 - c.a0 IN
  [j \in 1..(c.b1 - c.b0) |->
     IF c.t = "sub" THEN (w[c.g][j] * Sum([i \in 1..di |-> src[c.a0 + i]])) \div di
     ELSE IF c.t = "id" THEN src[c.a0 + j]
     ELSE IF c.t = "lin" THEN w[c.g][j] * src[c.a0 + j]
     ELSE Sum([i \in 1..di |-> Coef(c, w, i, j) * src[c.a0 + i]])]
Bwd(c, w, te) ==  \* error at the source slice from the error te of the whole target input
  [i \in 1..(c.a1 - c.a0) |->
     IF c.t = "id" THEN te[c.b0 + i] ELSE IF c.t = "lin" THEN w[c.g][i] * te[c.b0 + i]
     ELSE Sum([j \in 1..(c.b1 - c.b0) |-> Coef(c, w, i, j) * te[c.b0 + j]])]
Grad(c, src, te, size) ==  \* contribution to the derivatives of the group of c
  LET di == c.a1 - c.a0 IN
  IF c.t = "lin" THEN [q \in 1..size |-> src[c.a0 + q] * te[c.b0 + q]]
  ELSE [q \in 1..size |-> LET i == ((q - 1) % di) + 1
                              j == ((q - 1) \div di) + 1
                          IN IF c.t = "fns" /\ i = j THEN 0 ELSE src[c.a0 + i] * te[c.b0 + j]]
Vadd(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
AddAt(v, from, u) == [k \in DOMAIN v |-> IF k > from /\ k <= from + Len(u) THEN v[k] + u[k - from] ELSE v[k]]
RECURSIVE AddAll(_, _)
AddAll(v, q) == IF q = <<>> THEN v ELSE AddAll(AddAt(v, Head(q)[1], Head(q)[2]), Tail(q))
SetToSeq(S) == LET RECURSIVE F(_)
                   F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN <<x>> \o F(T \ {x})
               IN F(S)
(* offsets of the input modules in the network input (likewise outputs) *)
OffOf(net, ms, k, inp) == Sum([j \in 1..(k - 1) |-> IF inp THEN InDim(net.mods[ms[j]]) ELSE net.mods[ms[j]].n])
Part(v, from, n) == SubSeq(v, from + 1, from + n)
NetIn(net) == OffOf(net, net.ins, Len(net.ins) + 1, TRUE)
NetOut(net) == OffOf(net, net.outs, Len(net.outs) + 1, FALSE)
PosIn(q, m) == CHOOSE k \in DOMAIN q : q[k] = m

(* one time step: prev = outputs of all modules at the previous step (<<>> if none) *)
RECURSIVE RunMods(_, _, _, _, _)
RunMods(s, w, prev, x, acc) ==   \* acc: [i |-> inputs so far, o |-> outputs so far] as functions on done modules
  LET done == DOMAIN acc.o
      net == s.net
      todo == {m \in Mods(net) \ done : Preds(s, m) \subseteq done}
  IN IF todo = {} THEN acc ELSE
     LET m == CHOOSE y \in todo : TRUE
         d == InDim(net.mods[m])
         base == IF m \in Range(net.ins) THEN Part(x, OffOf(net, net.ins, PosIn(net.ins, m), TRUE), d) ELSE Zero(d)
         cs == SetToSeq({c \in Act(s) : net.conns[c].b = m /\ (~net.conns[c].rec \/ prev # <<>>)})
         xin == TLCEval(AddAll(base, [k \in DOMAIN cs |->
                   LET c == net.conns[cs[k]] IN <<c.b0, Fwd(c, w, IF c.rec THEN prev[c.a] ELSE acc.o[c.a])>>]))
     IN RunMods(s, w, prev, x, [i |-> (m :> xin) @@ acc.i, o |-> (m :> TLCEval(Fl(net.mods[m], xin))) @@ acc.o])
StepNet(s, w, prev, x) == RunMods(s, w, prev, x, [i |-> <<>>, o |-> <<>>])
OutOf(net, o) == LET RECURSIVE F(_)
                     F(k) == IF k > Len(net.outs) THEN <<>> ELSE o[net.outs[k]] \o F(k + 1)
                 IN F(1)
(* backward through one time step: h = [i, o] of the step, nextie = input errors of the next step (<<>> if last) *)
RECURSIVE BackMods(_, _, _, _, _, _)
BackMods(s, w, h, nextie, e, ie) ==
  LET net == s.net
      done == DOMAIN ie
      succ(m) == {net.conns[c].b : c \in {z \in Act(s) : net.conns[z].a = m /\ ~net.conns[z].rec}}
      todo == {m \in Mods(net) \ done : succ(m) \subseteq done}
  IN IF todo = {} THEN ie ELSE
     LET m == CHOOSE y \in todo : TRUE
         base == IF m \in Range(net.outs) THEN Part(e, OffOf(net, net.outs, PosIn(net.outs, m), FALSE), net.mods[m].n) ELSE Zero(net.mods[m].n)
         cs == SetToSeq({c \in Act(s) : net.conns[c].a = m /\ (~net.conns[c].rec \/ nextie # <<>>)})
         oe == TLCEval(AddAll(base, [k \in DOMAIN cs |->
                 LET c == net.conns[cs[k]] IN <<c.a0, Bwd(c, w, IF c.rec THEN nextie[c.b] ELSE ie[c.b])>>]))
     IN BackMods(s, w, h, nextie, e, (m :> TLCEval(Fd(net.mods[m], h.i[m], oe))) @@ ie)
NewDerivs(s, d, h, ie, nextie) ==
  LET net == s.net
      RECURSIVE F(_, _)
      F(c, acc) == IF c > s.na THEN acc
                   ELSE LET cn == net.conns[c]
                            te == IF cn.rec THEN nextie ELSE ie
                        IN IF cn.g = 0 \/ (cn.rec /\ nextie = <<>>) THEN F(c + 1, acc)
                           ELSE F(c + 1, [acc EXCEPT ![cn.g] = TLCEval(Vadd(@, Grad(cn, h.o[cn.a], te[cn.b], Len(@))))])
  IN F(1, d)
InErr(net, ie) == LET RECURSIVE F(_)
                      F(k) == IF k > Len(net.ins) THEN <<>> ELSE ie[net.ins[k]] \o F(k + 1)
                  IN F(1)

(* ------------------------------------------------------------------ state
   objs: networks of the same structure: [w, d, hist (steps since reset), bt (steps not yet propagated back), ie] *)
NewObj(cfg) == [ord |-> cfg.ord[1], w |-> cfg.w0, d |-> [g \in DOMAIN cfg.w0 |-> Zero(Len(cfg.w0[g]))], hist |-> <<>>, bt |-> 0, ie |-> <<>>]
Init0(cfg) == [net |-> cfg, desc |-> cfg.desc, na |-> cfg.na, objs |-> <<NewObj(cfg)>>]
Rec(s) == s.net.kind # "ff"
Groups(s) == {s.net.conns[c].g : c \in Act(s)} \ {0}
(* the order of the components in the parameter vector is observed from the code, not prescribed *)
OrderOk(s, b) == Range(b.ord) = Groups(s) /\ Len(b.ord) = Cardinality(Groups(s))
Concat(q, f) == LET
                    RECURSIVE F(_)
                    F(k) == IF k > Len(q) THEN <<>> ELSE f[q[k]] \o F(k + 1)
                IN F(1)
StartOf(s, q, g) == Sum([k \in 1..(PosIn(q, g) - 1) |-> Len(s.net.w0[q[k]])])
Spread(s, q, w, v) == [g \in DOMAIN w |-> IF g \in Range(q) THEN Part(v, StartOf(s, q, g), Len(w[g])) ELSE w[g]]
PDim(s) == LET q == SetToSeq(Groups(s)) IN Sum([k \in DOMAIN q |-> Len(s.net.w0[q[k]])])
Fwd1(s, o, x) == LET b == s.objs[o]
                     prev == IF Rec(s) /\ b.hist # <<>> THEN b.hist[Len(b.hist)].o ELSE <<>>
                     h == StepNet(s, b.w, prev, x)
                 IN [b EXCEPT !.hist = IF Rec(s) THEN Append(@, h) ELSE <<h>>,
                              !.bt = IF Rec(s) THEN @ + 1 ELSE 1, !.ie = <<>>]
Back1(s, o, e) == LET b == s.objs[o]
                      h == b.hist[b.bt]
                      ie == BackMods(s, b.w, h, b.ie, e, <<>>)
                  IN [b EXCEPT !.d = NewDerivs(s, @, h, ie, b.ie), !.bt = @ - 1, !.ie = ie]
Cleared(b) == [b EXCEPT !.hist = <<>>, !.bt = 0, !.ie = <<>>]
Step(s, op) ==
  LET o == op.o
      b == s.objs[o]
      put(x) == [s EXCEPT !.objs[o] = x]
      ok(x, r) == [s |-> put(x), ret |-> r, ok |-> TRUE]
  IN CASE op.op = "act" -> LET b2 == Fwd1(s, o, op.x) IN ok(b2, OutOf(s.net, b2.hist[Len(b2.hist)].o))
       [] op.op = "back" -> IF s.net.kind = "forget" THEN [s |-> s, ret |-> <<>>, ok |-> FALSE]
                            ELSE LET b2 == Back1(s, o, op.e) IN ok(b2, InErr(s.net, b2.ie))
       [] op.op = "reset" -> ok(Cleared(b), <<>>)
       [] op.op = "setp" -> IF Len(op.v) = PDim(s) THEN ok([b EXCEPT !.w = Spread(s, b.ord, @, op.v)], <<>>)
                            ELSE [s |-> s, ret |-> <<>>, ok |-> FALSE]
       [] op.op = "seti" -> ok([b EXCEPT !.w = TLCEval(Spread(s, b.ord, @, [Concat(b.ord, @) EXCEPT ![op.i + 1] = op.x]))], <<>>)
       [] op.op = "setg" -> ok([b EXCEPT !.w[op.g] = op.v], <<>>)
       [] op.op = "resetd" -> ok([b EXCEPT !.d = [g \in DOMAIN @ |-> Zero(Len(@[g]))]], <<>>)
       [] op.op = "extend" -> [s |-> [s EXCEPT !.na = Len(s.net.conns), !.desc = op.desc, !.objs = [q \in DOMAIN @ |-> [Cleared(@[q]) EXCEPT !.ord = op.ord]]], ret |-> <<>>, ok |-> TRUE]
       (* copying starts both the copy and, unless buffers are kept, the original from scratch *)
       [] op.op = "copy" -> LET src == IF op.how \in {"copy", "similar"} THEN Cleared(b) ELSE b
                                cp0 == CASE op.how = "similar" -> [Cleared(b) EXCEPT !.w = op.w, !.d = [g \in DOMAIN @ |-> Zero(Len(@[g]))]]
                                        [] op.how = "xml" -> [Cleared(b) EXCEPT !.d = [g \in DOMAIN @ |-> Zero(Len(@[g]))]]
                                        [] OTHER -> src
                                 cp == IF op.how = "xml" THEN [cp0 EXCEPT !.ord = op.ord] ELSE cp0
                            IN [s |-> [put(src) EXCEPT !.objs = Append(@, cp)], ret |-> <<>>, ok |-> TRUE]
       [] op.op = "run" -> LET RECURSIVE F(_, _)   \* activateOnDataset: a whole input sequence from a reset, then a reset
                               F(k, q) == IF k > Len(op.xs) THEN <<>>
                                          ELSE LET b2 == Fwd1(q, o, op.xs[k])
                                               IN <<OutOf(s.net, b2.hist[Len(b2.hist)].o)>> \o F(k + 1, [q EXCEPT !.objs[o] = b2])
                           IN ok(Cleared(b), F(1, put(Cleared(b))))
Next0(s, op) == Step(s, op).s

(* operations for exploration: small integer inputs *)
CONSTANT Vals
Vec(n, x) == [k \in 1..n |-> IF k % 2 = 1 THEN x ELSE 1 - x]
CONSTANT MaxT
OpsOn(s, o) ==
  LET b == s.objs[o] IN
  (IF Len(b.hist) < MaxT \/ ~Rec(s) THEN (IF b.ie = <<>> \/ ~Rec(s) THEN {[op |-> "act", o |-> o, x |-> Vec(NetIn(s.net), x)] : x \in Vals} ELSE {}) ELSE {})
  \cup (IF b.bt > 0 /\ s.net.kind # "forget" /\ (\A g \in DOMAIN b.d : \A k \in DOMAIN b.d[g] : b.d[g][k] < 5000 /\ b.d[g][k] > -5000)
        THEN {[op |-> "back", o |-> o, e |-> Vec(NetOut(s.net), x)] : x \in {1, 2}} ELSE {})
  \cup (IF b.hist # <<>> THEN {[op |-> "reset", o |-> o]} ELSE {})
  \cup {[op |-> "resetd", o |-> o]}
  \cup (IF PDim(s) > 0 THEN {[op |-> "seti", o |-> o, i |-> PDim(s) - 1, x |-> 2], [op |-> "setp", o |-> o, v |-> [k \in 1..PDim(s) |-> (k % 3) - 1]],
         [op |-> "setp", o |-> o, v |-> Zero(PDim(s) + 1)]} ELSE {})
Ops(s) == UNION {OpsOn(s, o) : o \in DOMAIN s.objs}
          \cup (IF s.na < Len(s.net.conns) /\ Len(s.objs) = 1 THEN {[op |-> "extend", o |-> 1, ord |-> s.net.ord[2], desc |-> <<>>]} ELSE {})
          \cup (IF Len(s.objs) < 2 THEN {[op |-> "copy", o |-> 1, how |-> h] : h \in {"copy", "deepcopy", "pickle"}} ELSE {})
-----------------------------------------------------------------------------
(* properties of the specification: the back-propagated values are the derivatives.
   Every output is a polynomial of degree <= 2 in each single parameter and input of the explored
   linear/multiplicative structures, for which central differences with step 1 are exact. *)
RECURSIVE Replay(_, _, _, _)
Replay(s, w, xs, prev) == IF xs = <<>> THEN <<>>
                          ELSE LET h == StepNet(s, w, prev, Head(xs)) IN <<OutOf(s.net, h.o)>> \o Replay(s, w, Tail(xs), IF Rec(s) THEN h.o ELSE <<>>)
Loss(s, w, xs, es) == LET ys == Replay(s, w, xs, <<>>) IN Sum([t \in DOMAIN xs |-> Sum([k \in DOMAIN ys[t] |-> ys[t][k] * es[t][k]])])
RECURSIVE FwdAll(_, _, _)
FwdAll(s, o, xs) == IF xs = <<>> THEN s ELSE FwdAll([s EXCEPT !.objs[o] = Fwd1(s, o, Head(xs))], o, Tail(xs))
RECURSIVE BackAll(_, _, _, _)
BackAll(s, o, es, acc) == IF es = <<>> THEN [s |-> s, ie |-> acc]
                          ELSE LET b2 == Back1(s, o, es[Len(es)])
                               IN BackAll([s EXCEPT !.objs[o] = b2], o, SubSeq(es, 1, Len(es) - 1), <<InErr(s.net, b2.ie)>> \o acc)
GradIsDerivative(s, o, xs, es) ==
  LET s0 == [s EXCEPT !.objs[o] = [Cleared(@) EXCEPT !.d = [g \in DOMAIN @ |-> Zero(Len(@[g]))]]]
      r == BackAll(FwdAll(s0, o, xs), o, es, <<>>)
      w == s.objs[o].w
  IN /\ \A g \in Groups(s) : \A q \in DOMAIN w[g] :
          2 * r.s.objs[o].d[g][q] = Loss(s, [w EXCEPT ![g][q] = @ + 1], xs, es) - Loss(s, [w EXCEPT ![g][q] = @ - 1], xs, es)
     /\ \A t \in DOMAIN xs : \A k \in DOMAIN xs[t] :
          2 * r.ie[t][k] = Loss(s, w, [xs EXCEPT ![t][k] = @ + 1], es) - Loss(s, w, [xs EXCEPT ![t][k] = @ - 1], es)
-----------------------------------------------------------------------------
(* judging a recorded step.  obs[o]: params, derivs, pdim, groups, gderivs (by group number, <<>> if absent) *)
Has(s, g) == g \in Groups(s)
ObjBad(s, b, q) ==
  IF q.err # "" THEN {"observing raised " \o q.err} ELSE
  IF ~OrderOk(s, b) THEN {"parameter vector is not the concatenation of the components"} ELSE
  (IF q.pdim # PDim(s) \/ Len(q.params) # q.pdim \/ Len(q.derivs) # q.pdim THEN {"parameter count"} ELSE {})
  \cup (IF q.params # Concat(b.ord, b.w) THEN {"network parameters"} ELSE {})
  \cup (IF \E g \in Groups(s) : q.groups[g] # b.w[g] THEN {"component parameters"} ELSE {})
  \cup (IF q.derivs # Concat(b.ord, b.d) THEN {"network derivatives"} ELSE {})
  \cup (IF \E g \in Groups(s) : q.gderivs[g] # b.d[g] THEN {"component derivatives"} ELSE {})
Bad(r, e) ==
  IF ~r.ok THEN (IF e.err = "" THEN {"accepted an invalid request"} ELSE {})
  ELSE IF e.err # "" THEN {"raised " \o e.err}
  ELSE (IF e.op \in {"act", "run"} /\ e.ret # r.ret THEN {"output"} ELSE {})
       \cup (IF e.op = "back" /\ e.ret # r.ret THEN {"input error"} ELSE {})
Do(s, e) ==
  IF e.op = "build"     \* sorting succeeds exactly on acyclic graphs
  THEN [s |-> s, bad |-> (IF e.err = "" /\ ~Acyclic(s) THEN {"cyclic graph accepted"} ELSE {})
                         \cup (IF e.err # "" /\ Acyclic(s) THEN {"acyclic graph refused: " \o e.err} ELSE {})]
  ELSE LET r == Step(s, e)
           bad == Bad(r, e)
       IN [s |-> r.s, bad |-> bad \cup (IF bad # {} THEN {} ELSE
              IF Len(e.obs) # Len(r.s.objs) THEN {"object missing"}
              ELSE UNION {ObjBad(r.s, r.s.objs[o], e.obs[o]) : o \in DOMAIN r.s.objs}
                   \cup (IF e.op = "copy" /\ e.desc # s.desc THEN {"structure of the copy"} ELSE {}))]
=============================================================================
