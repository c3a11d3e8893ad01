------------------------------ MODULE MCTools ------------------------------
EXTENDS Tools
VARIABLES gCfg, gState, gHist
CONSTANTS SIZE
Scripts == {<<1, 2, 3, 4>>, <<3, 2, 2, 0, 1>>, <<0, 4>>, <<2>>}
NN(reg, inc, max, tds, vds) == [kind |-> "nn", reg |-> reg, inc |-> inc, max |-> max, vds |-> vds,
   ds |-> IF reg THEN <<<<1, 0>>, <<2, 2>>>> ELSE <<<<0, 0>>, <<1, 0>>, <<2, 1>>, <<3, 1>>>>,
   tds |-> IF ~tds THEN <<>> ELSE IF reg THEN <<<<1, 2>>>> ELSE <<<<1, 1>>, <<2, 0>>, <<3, 1>>, <<4, 1>>>>,
   ops |-> {[op |-> "run", conv |-> c, script |-> s] : c \in 0..2, s \in Scripts} \cup {[op |-> "curve"]}]
Nm == {"a", "b"}
Seqs == {<<<<[x |-> <<1, 2>>, t |-> <<5>>], [x |-> <<3, 4>>, t |-> <<6>>], [x |-> <<5, 6>>, t |-> <<7>>]>>, <<[x |-> <<9, 9>>, t |-> <<1>>]>>>>,
         <<<<[x |-> <<1>>, t |-> <<5>>], [x |-> <<2>>, t |-> <<6>>], [x |-> <<3>>, t |-> <<7>>], [x |-> <<4>>, t |-> <<8>>]>>>>}
Cfgs == {NN(reg, inc, max, tds, vds) : reg \in BOOLEAN, inc \in {1, 3}, max \in {2, 6}, tds \in BOOLEAN, vds \in BOOLEAN} \cup
        {[kind |-> "win", ops |-> {[op |-> "win", seqs |-> s, w |-> w] : s \in Seqs, w \in 1..4}]} \cup
        {[kind |-> "files", ops |-> {[op |-> "add", n |-> n, k |-> k, d |-> d] : n \in Nm, k \in {"x", "y"}, d \in 1..2} \cup {[op |-> "read", n |-> n] : n \in Nm} \cup
                                    {[op |-> "list"]} \cup {[op |-> "dump", n |-> "b", v |-> <<>>], [op |-> "dump", n |-> "a", v |-> <<[n |-> "z", v |-> <<4>>]>>]}]}
Start0(c) == [XInit0(c) EXCEPT !.ops = c.ops, !.size = SIZE]
INSTANCE GenBase WITH Init0 <- Start0, Ops <- XOps, Next0 <- XNext0
(* the weights kept are the best of all tried on the test set, the first of equals; without a criterion all epochs are used *)
BestInv == gState.kind = "nn" => LET l == gState.l IN
             l.k > 0 => /\ (gState.tds # <<>> => \A k \in 2..Len(l.vs) : l.best <= l.vs[k])
                        /\ (gState.tds = <<>> => l.epoch > gState.max)
                        /\ Len(l.xs) = l.k + 1 /\ l.epoch <= gState.max + gState.inc /\ l.bad < Len(l.xs)
                        /\ (gState.vds /\ gState.tds # <<>> => Err(gState, Final(gState, l), gState.tds) = l.best)
(* windows partition the beginning of each sequence *)
WinInv == gState.kind = "win" => \A s \in Seqs : \A w \in 1..4 :
            LET W == Windows(s, w) IN (\A k \in DOMAIN W : Len(W[k].x) = w * Len(s[1][1].x)) /\ (w = 1 => Len(W) = SumSeq([q \in DOMAIN s |-> Len(s[q])]))
DictInv == gState.kind = "files" => Cardinality({gState.fs[k].n : k \in DOMAIN gState.fs}) = Len(gState.fs)
=============================================================================
