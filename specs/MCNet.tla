------------------------------- MODULE MCNet -------------------------------
EXTENDS Net
VARIABLES gCfg, gState, gHist
M(k, n) == [k |-> k, n |-> n]
C(t, a, b, d1, d2, g, rec) == [t |-> t, a |-> a, b |-> b, a0 |-> 0, a1 |-> d1, b0 |-> 0, b1 |-> d2, g |-> g, rec |-> rec, perm |-> <<0>>, bs |-> 1]
CONSTANTS Kind, Mag
Chain == [kind |-> Kind, mods |-> <<M("lin", 2), M("lin", 2), M("lin", 1), M("bias", 1)>>, ins |-> <<1>>, outs |-> <<3>>,
          conns |-> <<C("full", 1, 2, 2, 2, 1, FALSE), C("full", 2, 3, 2, 1, 2, FALSE), C("lin", 2, 2, 2, 2, 3, TRUE), C("full", 4, 2, 1, 2, 4, FALSE)>>,
          groups |-> <<4, 2, 2, 2>>, w0 |-> <<<<1, -1, 2, 0>>, <<1, 2>>, <<-1, 1>>, <<1, 0>>>>, na |-> 4, desc |-> <<>>, ord |-> <<<<4, 1, 2, 3>>, <<4, 1, 2, 3>>>>]
Ff(c) == IF c.kind # "ff" THEN c
         ELSE LET keep == SelectSeq([k \in DOMAIN c.conns |-> k], LAMBDA k : ~c.conns[k].rec)
                  used == {c.conns[keep[k]].g : k \in DOMAIN keep}
              IN [c EXCEPT !.conns = [k \in DOMAIN keep |-> c.conns[keep[k]]], !.na = Len(keep),
                           !.ord = [k \in 1..2 |-> SelectSeq(c.ord[k], LAMBDA g : g \in used)]]
Diamond == [kind |-> Kind, mods |-> <<M("lin", 1), M("lin", 1), M("lin", 2), M("mul", 1), M("lin", 2)>>, ins |-> <<1, 2>>, outs |-> <<4, 5>>,
            conns |-> <<C("full", 1, 3, 1, 2, 1, FALSE), C("full", 2, 3, 1, 2, 1, FALSE), C("id", 3, 4, 2, 2, 0, FALSE),
                        [C("perm", 3, 5, 2, 2, 0, FALSE) EXCEPT !.perm = <<1, 0>>], C("fns", 5, 5, 2, 2, 2, TRUE)>>,
            groups |-> <<2, 4>>, w0 |-> <<<<2, -1>>, <<5, 1, -1, 7>>>>, na |-> 5, desc |-> <<>>, ord |-> <<<<1, 2>>, <<1, 2>>>>]
Late == [kind |-> Kind, mods |-> <<M("lin", 1), M("relu", 1), M("lin", 1)>>, ins |-> <<1>>, outs |-> <<3>>,
         conns |-> <<C("full", 1, 2, 1, 1, 1, FALSE), C("full", 2, 3, 1, 1, 2, FALSE), C("full", 1, 3, 1, 1, 3, FALSE)>>,
         groups |-> <<1, 1, 1>>, w0 |-> <<<<3>>, <<-1>>, <<2>>>>, na |-> 2, desc |-> <<>>, ord |-> <<<<1, 2>>, <<1, 2, 3>>>>]
Cfgs == {Ff(Chain), Ff(Diamond), Ff(Late)}
INSTANCE GenBase
T1(S) == IF Kind = "ff" THEN {SubSeq(q, 1, 1) : q \in S} ELSE S
Seqs2 == T1({<<<<1, 2>>, <<-1, 1>>>>, <<<<0, 3>>, <<2, -2>>>>})
Errs(n) == T1({<<Vec(n, 1), Vec(n, 2)>>, <<Vec(n, -1), Vec(n, 3)>>})
NoRelu(s) == \A m \in Mods(s.net) : s.net.mods[m].k # "relu"
Xs(s, q) == IF NetIn(s.net) = 2 THEN q ELSE [t \in DOMAIN q |-> <<q[t][1]>>]
Fresh(b) == b.hist = <<>> /\ \A g \in DOMAIN b.d : b.d[g] = Zero(Len(b.d[g]))
GradInv == (NoRelu(gState) /\ Fresh(gState.objs[1])) => \A o \in DOMAIN gState.objs : \A q \in Seqs2 : \A e \in Errs(NetOut(gState.net)) : GradIsDerivative(gState, o, Xs(gState, q), e)
AcyclicInv == Acyclic(gState)
IndepInv == \A o \in DOMAIN gState.objs : Len(gState.objs[o].hist) <= MaxT /\ gState.objs[o].bt <= Len(gState.objs[o].hist)
ConstrainMag == \A o \in DOMAIN gState.objs : \A g \in DOMAIN gState.objs[o].d : \A k \in DOMAIN gState.objs[o].d[g] : gState.objs[o].d[g][k] \in -Mag..Mag
One == Len(gState.objs) = 1
MCBound == One /\ ConstrainMag
=============================================================================
