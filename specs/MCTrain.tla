------------------------------ MODULE MCTrain ------------------------------
EXTENDS Train
VARIABLES gCfg, gState, gHist
L(i, o, r, bi, bo) == [i |-> i, o |-> o, r |-> r, bi |-> bi, bo |-> bo]
Base == [tr |-> "gd", p0 |-> <<1024, -512>>, alpha |-> 131072, mom |-> 8, decay |-> 14, delta0 |-> 131072, etap |-> 20, etam |-> 8,
         dmin |-> 65536, dmax |-> 262144, lay |-> L(<<>>, <<>>, <<>>, <<>>, <<>>), data |-> <<>>, nh |-> 0, no |-> 1, hid |-> "lin",
         batch |-> FALSE, wd |-> 0, batchn |-> 3]
Sm(x, t, w) == [x |-> x, t |-> t, w |-> w]
Data == <<<<Sm(<<2048, -4096>>, <<1024>>, <<>>), Sm(<<-1024, 3000>>, <<-2048>>, <<>>), Sm(<<512, 512>>, <<4096>>, <<>>)>>,
          <<Sm(<<4096, 1024>>, <<0>>, <<8192>>), Sm(<<-4096, 1024>>, <<2000>>, <<2048>>)>>>>
V(n) == [k \in 1..n |-> (((k * 7) % 9) - 4) * 700 + 100]
NetCfgs == {[Base EXCEPT !.tr = "bp", !.data = Data, !.lay = L(<<>>, <<1, 2>>, <<>>, <<>>, <<3>>), !.p0 = V(3)],
            [Base EXCEPT !.tr = "bp", !.data = Data, !.lay = L(<<1, 2, 3, 4>>, <<7, 8>>, <<>>, <<5, 6>>, <<>>), !.p0 = V(8), !.nh = 2, !.hid = "tanh"],
            [Base EXCEPT !.tr = "bp", !.data = Data, !.lay = L(<<1, 2, 3, 4>>, <<5, 6>>, <<7, 8, 9, 10>>, <<>>, <<11>>), !.p0 = V(11), !.nh = 2, !.hid = "tanh"],
            [Base EXCEPT !.tr = "bp", !.data = Data, !.lay = L(<<3, 1>>, <<2>>, <<4>>, <<5>>, <<6>>), !.p0 = V(6), !.nh = 1, !.hid = "lin"]}
Cfgs == {[Base EXCEPT !.mom = m, !.decay = d] : m \in {0, 8, 14}, d \in {16, 12}}
        \cup {[Base EXCEPT !.tr = "gdr", !.etap = a, !.etam = b] : a \in {18, 24, 32}, b \in {4, 8}} \cup NetCfgs
INSTANCE GenBase WITH Init0 <- TInit0, Ops <- TOps, Next0 <- TNext0
StepsInv == StepInv(gState)
RatesInv == RateInv(gState)
SlopesInv == SlopeInv(gState)
=============================================================================
