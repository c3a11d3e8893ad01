----------------------------- MODULE MCBuilders -----------------------------
(* Enumerates construction options; checks the recurrences for the symmetries they must have. *)
EXTENDS Builders
VARIABLES gCfg, gState, gHist
Base == [b |-> "build", layers |-> <<>>, hidc |-> "sig", outc |-> "lin", bias |-> TRUE, outbias |-> TRUE, peep |-> FALSE,
         recurrent |-> FALSE, fast |-> FALSE, badopt |-> FALSE, explicit |-> TRUE, len |-> 1, isz |-> 1, hsz |-> 2, osz |-> 1,
         sym |-> FALSE, dims |-> <<2>>, symdim |-> TRUE, symdir |-> TRUE, simple |-> FALSE, direct |-> FALSE, size |-> 2,
         conv |-> 1, maps |-> 1, conns |-> <<>>, esp |-> TRUE]
Lays == {<<>>, <<2>>, <<1, 2>>, <<2, 3>>, <<2, 1, 2>>, <<1, 2, 1>>, <<2, 2, 1, 2>>, <<1, 2, 3, 2, 1>>}
BuildCfgs == {[Base EXCEPT !.layers = l, !.hidc = h, !.outc = o, !.bias = bi, !.outbias = ob, !.peep = p, !.recurrent = r] :
                l \in Lays, h \in {"sig", "tanh", "lstm"}, o \in {"lin", "sig", "lstm"}, bi \in BOOLEAN, ob \in BOOLEAN, p \in BOOLEAN, r \in BOOLEAN}
             \cup {[Base EXCEPT !.layers = <<2, 2>>, !.fast = TRUE], [Base EXCEPT !.layers = <<2, 2, 1>>, !.badopt = TRUE]}
BidiCfgs == {[Base EXCEPT !.b = "bidi", !.len = l, !.sym = s, !.hidc = h, !.outc = "sig", !.osz = o] : l \in 2..4, s \in BOOLEAN, h \in {"tanh", "sig"}, o \in 1..2}
SwCfgs == {[Base EXCEPT !.b = k[1], !.dims = d, !.symdim = sd, !.symdir = k[2], !.simple = k[3], !.hidc = "tanh", !.outc = "sig"] :
            k \in {<<"swipe", TRUE, FALSE>>, <<"swipe", FALSE, FALSE>>, <<"border", TRUE, FALSE>>, <<"border", TRUE, TRUE>>},
            d \in {<<3>>, <<2, 2>>, <<2, 3>>, <<3, 3>>, <<2, 2, 2>>}, sd \in BOOLEAN}
          \cup {[Base EXCEPT !.b = "md", !.dims = d, !.hidc = "mdlstm", !.outc = "sig", !.hsz = 1, !.symdim = sd, !.symdir = si] :
                 d \in {<<2, 2>>, <<2, 3>>}, sd \in BOOLEAN, si \in BOOLEAN}
ConvCfgs == {[Base EXCEPT !.b = "conv", !.size = 3, !.conv = k, !.maps = 2] : k \in 1..2}
            \cup {[Base EXCEPT !.b = "board", !.size = 3, !.conv = k, !.maps = 2, !.isz = 2] : k \in 1..4}
Conn(a, b, da, na, nb, out, self) == [a |-> a, b |-> b, da |-> da, na |-> na, nb |-> nb, out |-> out, self |-> self]
DecCfgs == {[Base EXCEPT !.b = "dec", !.esp = e, !.conns = q] : e \in BOOLEAN, q \in {
              <<Conn(1, 2, 2, 2, 2, FALSE, FALSE), Conn(2, 3, 2, 2, 1, TRUE, FALSE), Conn(2, 2, 1, 2, 2, FALSE, TRUE), Conn(1, 3, 2, 2, 1, TRUE, FALSE)>>,
              <<Conn(1, 2, 3, 3, 2, TRUE, FALSE), Conn(2, 2, 2, 2, 2, TRUE, FALSE)>>}}
Cfgs == BuildCfgs \cup BidiCfgs \cup SwCfgs \cup ConvCfgs \cup DecCfgs
NW(c, q) == IF c.conns[q].self THEN 3 * c.conns[q].nb ELSE c.conns[q].da * c.conns[q].nb
V(n, a) == [k \in 1..n |-> ((((k * 7 + a * 5) * 11) % 13) - 6) * 500 + 100]
Groups(c) == CASE c.b = "bidi" -> BiGroups(c)
               [] OTHER -> {<<"inconn", c.isz * HIn(c)>>, <<"outconn", c.osz * c.hsz>>, <<"border", HIn(c)>>} \cup {<<g, c.hsz * HIn(c)>> : g \in HGroups(c)}
Weights(c) == LET G0 == Groups(c) IN [g \in {z[1] : z \in G0} |-> V((CHOOSE z \in G0 : z[1] = g)[2], Len(g) + (IF g \in {"h1", "h1+", "bconn", "inconnb"} THEN 3 ELSE 0))]
SetSeq(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET e == CHOOSE z \in T : TRUE IN <<e>> \o F(T \ {e}) IN F(S)
Bords(c) == LET ks == SetSeq(BordKeys(c)) IN [k \in DOMAIN ks |-> [d |-> ks[k][1], t |-> ks[k][2], v |-> V(c.hsz, k)]]
St(c) == [EInit(c) EXCEPT !.w = IF c.b \in {"bidi", "swipe", "border", "md"} THEN Weights(c) ELSE <<>>,
                         !.bord = IF c.b = "border" THEN Bords(c) ELSE <<>>,
                         !.wc = IF c.b = "dec" THEN LET RECURSIVE F(_, _)
                                                        F(q, base) == IF q > Len(c.conns) THEN <<>>
                                                                      ELSE <<[k \in 1..NW(c, q) |-> base + k]>> \o F(q + 1, base + NW(c, q)) IN F(1, 0)
                                ELSE <<>>]
NoOps(s) == {}
NoNext(s, op) == s
INSTANCE GenBase WITH Init0 <- EInit, Ops <- NoOps, Next0 <- NoNext
Rev(x, z) == LET n == Len(x) \div z IN [k \in 1..Len(x) |-> x[(n - 1 - ((k - 1) \div z)) * z + ((k - 1) % z) + 1]]
X(c) == V(NInd(c), 2)
(* reversing the input of a direction-symmetric network reverses its output *)
SymInv == gCfg.b = "bidi" /\ gCfg.sym => BiRun(St(gCfg), Rev(X(gCfg), gCfg.isz)) = Rev(BiRun(St(gCfg), X(gCfg)), gCfg.osz)
Flip(c, x, z) == LET us == Units(c.dims)
                     u2(u) == [u EXCEPT ![1] = c.dims[1] - 1 - @]
                 IN [k \in 1..Len(x) |-> x[Index(c.dims, u2(us[((k - 1) \div z) + 1])) * z + ((k - 1) % z) + 1]]
FlipInv == (gCfg.b \in {"swipe", "md"} \/ (gCfg.b = "border" /\ (gCfg.simple \/ gCfg.symdim))) /\ gCfg.symdir =>
              NearV(SwRun(St(gCfg), Flip(gCfg, X(gCfg), gCfg.isz)), Flip(gCfg, SwRun(St(gCfg), X(gCfg)), gCfg.osz), 3, 0)
PartInv == gCfg.b = "dec" => PartitionInv(St(gCfg))
ParInv == CountInv(gCfg)
(* border classes: every border unit has exactly one class, and simple borders one for all *)
BordInv == gCfg.b = "border" => \A d \in 1..Len(gCfg.dims) : \A q \in 1..Volume(gCfg.dims) :
              BordKey(gCfg, d, Canon(gCfg, Units(gCfg.dims)[q], d)) \in BordKeys(gCfg)
=============================================================================
