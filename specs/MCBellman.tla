----------------------------- MODULE MCBellman -----------------------------
(* gState: [c, G, V, done, k]: exact policy iteration from the first actions; and scripted evaluators for replay *)
EXTENDS Bellman
VARIABLES gCfg, gState, gHist
CONSTANTS DEEP, REPLAY
Rows == {<<16, 0>>, <<8, 8>>, <<0, 16>>}
Ts2 == {<<<<r1, r2>>, <<r3, r4>>>> : r1 \in Rows, r2 \in Rows, r3 \in Rows, r4 \in Rows}
Cfgs == {[n |-> 2, m |-> 2, Ts |-> t, R |-> <<x, y>>, gamma |-> g] : t \in Ts2, x \in 0..(1 + DEEP), y \in 0..1, g \in {8} \cup (IF DEEP > 1 THEN {4} ELSE {})}
GI(c) == IF REPLAY THEN [c |-> c, left |-> 6, on |-> TRUE]
         ELSE LET G == [s \in 1..2 |-> {1}] IN [c |-> c, G |-> G, V |-> Value(c, G), last |-> <<>>, done |-> FALSE, k |-> 0]
GOps(s) == IF REPLAY THEN {<<x, y>> : x \in {-4, 0, 1, 6}, y \in {-4, 0, 2, 6}} ELSE IF s.done THEN {} ELSE {<<0, 0>>}
GNx(s, op) == IF REPLAY THEN s
              ELSE LET H == Improve(s.c, s.G, s.V) IN
                   IF H = s.G THEN [s EXCEPT !.done = TRUE] ELSE [s EXCEPT !.G = H, !.last = s.V, !.V = Value(s.c, H), !.k = @ + 1]
INSTANCE GenBase WITH Init0 <- GI, Ops <- GOps, Next0 <- GNx
ImprovesInv == REPLAY \/ gState.last = <<>> \/ \A s \in 1..2 : gState.V[s] >= gState.last[s] - 32
TerminatesInv == REPLAY \/ gState.k <= 4
(* at the end no policy at all is better *)
OptimalInv == REPLAY \/ ~gState.done \/ \A a \in 1..2 : \A b \in 1..2 :
                LET W == Value(gState.c, <<{a}, {b}>>) IN \A s \in 1..2 : W[s] <= gState.V[s] + 32
=============================================================================
