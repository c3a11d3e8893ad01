------------------------------ MODULE Evolvable ------------------------------
(* Parameter views of a module: masked parameters (a subset of the parameters can be changed, the others are
   switched to zero) and cheap copies (own parameter values, shared structure).
   cfg: kind "masked" | "cheap", n parameters, max enabled
   State: objs, each [mask, vals] with vals the stored value of every parameter (Unknown while never seen);
   cont: the parameters of the wrapped modules: one per masked object (a copy wraps a module of its own),
   one shared by all cheap copies, written by whoever was activated last.
   Parameter values are tokens (integers standing for the numbers seen); 0 is zero. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Unknown == -1
On(o) == {i \in DOMAIN o.mask : o.mask[i]}
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Asc(S \ {x})
Enabled(o) == LET q == Asc(On(o)) IN [k \in DOMAIN q |-> o.vals[q[k]]]
Applied(o) == [i \in DOMAIN o.mask |-> IF o.mask[i] THEN o.vals[i] ELSE 0]
Put(o, x) == LET q == Asc(On(o)) IN [o EXCEPT !.vals = [i \in DOMAIN @ |-> IF o.mask[i] THEN x[CHOOSE k \in DOMAIN q : q[k] = i] ELSE @[i]]]
Init0(cfg) == [cfg |-> cfg, cont |-> <<cfg.w0>>, objs |-> <<[mask |-> cfg.mask0, vals |-> cfg.v0]>>]
AllOn(n) == [i \in 1..n |-> TRUE]
(* transitions; random choices (a new mask, new values) are taken from the operation *)
Step(s, op) ==
  LET o == s.objs[op.o] IN
  CASE op.op = "set" -> LET b == Put(o, op.v) IN [s EXCEPT !.objs[op.o] = b, !.cont = IF s.cfg.kind = "masked" THEN [@ EXCEPT ![op.o] = Applied(b)] ELSE @]
    [] op.op = "topo" -> LET b == [o EXCEPT !.mask = op.newmask] IN [s EXCEPT !.objs[op.o] = b, !.cont[op.o] = Applied(b)]
    [] op.op = "randomize" -> LET b == Put([mask |-> op.newmask, vals |-> [i \in DOMAIN o.vals |-> Unknown]], op.v)
                              IN [s EXCEPT !.objs[op.o] = b, !.cont = IF s.cfg.kind = "masked" THEN [@ EXCEPT ![op.o] = Applied(b)] ELSE @]
    [] op.op = "copy" -> [s EXCEPT !.objs = Append(@, o), !.cont = IF s.cfg.kind = "masked" THEN Append(@, @[op.o]) ELSE @]
    [] op.op = "act" -> IF s.cfg.kind = "cheap" THEN [s EXCEPT !.cont = <<o.vals>>] ELSE s
Next0(s, op) == Step(s, op)
Tokens == {0, 1, 2}
Ops(s) == UNION {LET o == s.objs[k]  n == s.cfg.n IN
            {[op |-> "set", o |-> k, v |-> [i \in 1..Cardinality(On(o)) |-> (i + x) % 3]] : x \in Tokens}
            \cup (IF s.cfg.kind = "masked" THEN {[op |-> "topo", o |-> k, newmask |-> m] : m \in {q \in [1..n -> BOOLEAN] :
                       Cardinality({i \in 1..n : q[i]}) \in 1..s.cfg.max}} ELSE {[op |-> "act", o |-> k]})
            \cup (IF Len(s.objs) < 2 THEN {[op |-> "copy", o |-> k]} ELSE {}) : k \in DOMAIN s.objs}
(* invariants *)
MaskInv(s) == \A k \in DOMAIN s.objs : Cardinality(On(s.objs[k])) <= s.cfg.max
ZeroInv(s) == s.cfg.kind = "masked" => \A k \in DOMAIN s.objs : s.cont[k] = Applied(s.objs[k])
-----------------------------------------------------------------------------
(* judging a recorded step (a cheap copy brings its values into the shared module when it is activated): obs.mask[k], obs.params[k], obs.dim[k], cont *)
Match(v, q) == v = Unknown \/ v = q
Learn(s, e) ==   \* values revealed for the first time
  [s EXCEPT !.objs = [k \in DOMAIN @ |-> IF Len(e.params[k]) = Cardinality(On(@[k])) THEN Put(@[k], e.params[k]) ELSE @[k]]]
LearnCont(c, q) == [i \in DOMAIN c |-> IF c[i] = Unknown /\ i \in DOMAIN q THEN q[i] ELSE c[i]]
Same(a, q) == Len(a) = Len(q) /\ \A i \in DOMAIN a : Match(a[i], q[i])
Do(s, e) ==
  LET t == Step(s, e)
      bad == IF e.err # "" THEN {"raised " \o e.err}
             ELSE IF Len(e.params) # Len(t.objs) THEN {"object missing"}
             ELSE UNION {LET o == t.objs[k] IN
                    (IF e.mask[k] # o.mask THEN {"mask"} ELSE {})
                    \cup (IF ~Same(Enabled(o), e.params[k]) THEN {"enabled parameters"} ELSE {})
                    \cup (IF e.dim[k] # Cardinality(On(o)) THEN {"number of parameters"} ELSE {})
                    \cup (IF Cardinality(On(o)) > s.cfg.max THEN {"too many enabled"} ELSE {}) : k \in DOMAIN t.objs}
                  \cup (IF (s.cfg.kind = "masked" \/ e.op = "act") /\ ~(Len(t.cont) = Len(e.cont) /\ \A k \in DOMAIN t.cont : Same(t.cont[k], e.cont[k])) THEN {"parameters of the module"} ELSE {})
                  \cup (IF e.op = "topo" /\ On(t.objs[e.o]) = {} THEN {"nothing enabled"} ELSE {})
                  \cup (IF e.op = "act" /\ ~Same(t.cont[IF s.cfg.kind = "masked" THEN e.o ELSE 1], e.ret) THEN {"output"} ELSE {})
      u == Learn(t, e)
  IN [s |-> IF bad # {} THEN s ELSE [u EXCEPT !.cont = [k \in DOMAIN t.cont |-> LearnCont(t.cont[k], e.cont[k])]], bad |-> bad]
=============================================================================
