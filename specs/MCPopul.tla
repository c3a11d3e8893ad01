------------------------------ MODULE MCPopul ------------------------------
(* hill climbing and evolution strategies with arbitrary values of their candidates *)
EXTENDS Popul
VARIABLES gCfg, gState, gHist
CONSTANTS MAXC
Cfgs == {[kind |-> "hc", min |-> m, noisy |-> FALSE, temp |-> "cold", mu |-> 1, la |-> 1, elit |-> FALSE, init |-> 0] : m \in BOOLEAN}
        \cup {[kind |-> "es", min |-> m, noisy |-> FALSE, temp |-> "cold", mu |-> p[1], la |-> p[2], elit |-> e, init |-> 0] :
                 m \in BOOLEAN, p \in {<<1, 1>>, <<1, 2>>, <<2, 2>>, <<2, 4>>}, e \in BOOLEAN}
INSTANCE GenBase WITH Init0 <- GInit0, Ops <- POps, Next0 <- PNext0
Bound == Fresh(gState) <= MAXC
(* the value stood on, or of the best member of a plus strategy, never gets worse; a comma strategy has no such guarantee *)
Mono == [][/\ gCfg.kind = "hc" => AtLeast(gCfg, gState'.cur.v, gState.cur.v)
           /\ gCfg.kind = "es" /\ gCfg.elit => \A a \in gState.pop : \E b \in gState'.pop : AtLeast(gCfg, b.v, a.v)]_gvars
SizeInv == gCfg.kind = "es" => Cardinality(gState.pop) = gCfg.la + (IF gCfg.elit THEN gCfg.mu ELSE 0)
(* the parents of a plus strategy are the best of all that ever lived in the last generation *)
KeptProp == [][(gCfg.kind = "es" /\ gCfg.elit) => \A a \in Parents(gState) : a \in gState'.pop]_gvars
=============================================================================
