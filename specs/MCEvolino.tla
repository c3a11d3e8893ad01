------------------------------ MODULE MCEvolino ------------------------------
EXTENDS Evolino
VARIABLES gCfg, gState, gHist
CONSTANTS DEPTH, EPOCHS
Base == [depth |-> DEPTH, factor |-> 1024, burst |-> -1, d |-> 1, h |-> 1, order |-> <<"rec", "in", "bias">>]
NetCfg(d, h, o) == [kind |-> "net", d |-> d, h |-> h, order |-> o, seeds |-> {1, 2}, seqs |-> {<<[k \in 1..d |-> 2048]>>, <<[k \in 1..d |-> -1024], [k \in 1..d |-> 4096 * k]>>}, depth |-> DEPTH, factor |-> 1024, burst |-> -1, vals |-> {}]
Cfgs == {NetCfg(d, h, o) : d \in {1, 2}, h \in {1, 2}, o \in {<<"rec", "in", "bias">>, <<"bias", "rec", "in">>}} \cup
        {[kind |-> "train", burst |-> nb, vals |-> 1..3, depth |-> EPOCHS, d |-> 1, h |-> 1, order |-> <<"rec", "in", "bias">>, factor |-> 1024, seeds |-> {}, seqs |-> {}] : nb \in {-1, 1, 2, 3}}
INSTANCE GenBase WITH Init0 <- EInit0, Ops <- EOps, Next0 <- ENext0
IsNet == gCfg.kind = "net"
(* reading a genome back, and writing what was read, change nothing; every weight is in exactly one place *)
GenomeInv == IsNet => FromGenome(gState.n, ToGenome(gState.n)) = gState.n /\ \A v \in {1, 2} : ToGenome(FromGenome(gState.n, SeedG(gState.n, v))) = SeedG(gState.n, v)
(* generating is what happens when the generated values are fed back as if they were true; sequences can be processed in parts *)
FeedInv == IsNet => LET g == Gen(gState.n, gState.a, 3) IN Ys(Wash(gState.n, gState.a, Outs(g))) = Ys(g) /\ Gen(gState.n, After(gState.a, Gen(gState.n, gState.a, 1)), 2) = Tail(g)
(* bounded memory *)
RangeInv == IsNet => \A k \in 1..gCfg.h : Abs(gState.a.y[k]) <= One
(* the best fitness is the largest seen; a burst is due exactly when it has not grown for the set number of epochs *)
MaxInv == ~IsNet => gState.total = gState.k /\ gState.maxep <= gState.total /\ (gState.burst > 0 => gState.total - gState.maxep < gState.burst)
=============================================================================
