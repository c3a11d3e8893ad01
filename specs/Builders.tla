------------------------------ MODULE Builders ------------------------------
(* What the network builders have to construct, and the recurrences that the constructed networks compute.
   cfg.b: "build" buildNetwork(layers, ...) | "bidi" | "swipe" | "border" | "md" | "capture" | "conv" | "board" | "dec"
   state: [c, w weights by group name, mem (cell states, outputs) of recurrent networks, dec] *)
EXTENDS Modules
Lin(w, x, no) == LET n == Len(x) IN [j \in 1..no |-> SumSeq([i \in 1..n |-> Mul(w[(j - 1) * n + i], x[i])])]
(* integer-to-name *)
Hid(k) == "hidden" \o ToString(k)
NL(c) == Len(c.layers)
Name(c, i) == IF i = 1 THEN "in" ELSE IF i = NL(c) THEN "out" ELSE Hid(i - 2)
ClassOf(c, i) == IF i = 1 THEN "lin" ELSE IF i = NL(c) THEN c.outc ELSE c.hidc
LIn(k, n) == IF k = "lstm" THEN 4 * n ELSE n
Biased(c, i) == c.bias /\ i > 1 /\ (i < NL(c) \/ c.outbias)
Peep(c, i) == c.peep /\ c.hidc = "lstm" /\ i > 1 /\ i < NL(c)
RecHid(c) == c.hidc = "lstm" /\ NL(c) > 2
BMods(c) == {<<Name(c, i), ClassOf(c, i), c.layers[i]>> : i \in 1..NL(c)} \cup (IF c.bias THEN {<<"bias", "bias", 1>>} ELSE {})
BConns(c) == {<<Name(c, i), Name(c, i + 1), c.layers[i] * LIn(ClassOf(c, i + 1), c.layers[i + 1])>> : i \in 1..(NL(c) - 1)}
             \cup {<<"bias", Name(c, i), LIn(ClassOf(c, i), c.layers[i])>> : i \in {k \in 1..NL(c) : Biased(c, k)}}
BRec(c) == IF RecHid(c) THEN {<<"hidden0", "hidden0", 4 * c.layers[2] * c.layers[2]>>} ELSE {}
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET e == CHOOSE z \in S : TRUE IN e[3] + SumSet(S \ {e})
BPeep(c) == SumSeq([i \in 1..NL(c) |-> IF Peep(c, i) THEN 3 * c.layers[i] ELSE 0])
BParams(c) == SumSet(BConns(c)) + SumSet(BRec(c)) + BPeep(c)
BSeq(c) == c.recurrent \/ c.hidc = "lstm" \/ c.outc = "lstm"
Refused(c) == NL(c) < 2 \/ c.badopt \/ c.fast \/ (c.hidc = "lstm" /\ NL(c) > 3)
Layer(c, i, w, xin, prev) ==
  LET k == ClassOf(c, i)
      n == c.layers[i]
      cc == [k |-> k, n |-> n, peep |-> Peep(c, i), len |-> 1]
      pw == IF Peep(c, i) THEN w[Name(c, i)] ELSE <<>>
  IN IF k = "lstm" THEN LET h == LstmF(cc, pw, xin, prev) IN [y |-> h.y, s |-> h.s]
     ELSE [y |-> TLCEval(Flat(cc, pw, xin)), s |-> <<>>]
RECURSIVE BRun(_, _, _, _)
BRun(s, i, x, mem) ==   \* mem: names |-> [y, s] of the previous step; returns names |-> [y, s]
  LET c == s.c
      nm == Name(c, i)
      d == LIn(ClassOf(c, i), c.layers[i])
      pm == IF nm \in DOMAIN s.mem THEN s.mem[nm] ELSE [y |-> <<>>, s |-> <<>>]
      base == IF i = 1 THEN x
              ELSE TLCEval([j \in 1..d |-> 0])
      t1 == IF i = 1 THEN base ELSE Lin(s.w[Name(c, i - 1) \o ">" \o nm], mem[Name(c, i - 1)].y, d)
      t2 == IF Biased(c, i) THEN Vadd(t1, s.w["bias>" \o nm]) ELSE t1
      t3 == IF nm = "hidden0" /\ RecHid(c) /\ pm.y # <<>> THEN Vadd(t2, Lin(s.w["hidden0>hidden0"], pm.y, d)) ELSE t2
      r == Layer(c, i, s.w, TLCEval(t3), pm.s)
      m2 == (nm :> r) @@ mem
  IN IF i = NL(c) THEN m2 ELSE BRun(s, i + 1, x, m2)

(* --------------------------------------------------------- bidirectional *)
Fn1(k, v) == CASE k = "lin" -> v [] k = "tanh" -> Tanh(v) [] k = "sig" -> Sig(v)
FnV(k, x) == TLCEval([j \in DOMAIN x |-> Fn1(k, x[j])])
RECURSIVE BiH(_, _, _, _)
BiH(s, x, i, fwd) ==   \* hidden layer i (1-based) of one direction
  LET c == s.c
      xi == Part(x, (i - 1) * c.isz, c.isz)
      inp == Lin(s.w[IF fwd \/ c.sym THEN "inconn" ELSE "inconnb"], xi, c.hsz)
      p == IF fwd THEN i - 1 ELSE i + 1
  IN FnV(c.hidc, IF p < 1 \/ p > c.len THEN inp
                 ELSE Vadd(inp, Lin(s.w[IF fwd \/ c.sym THEN "fconn" ELSE "bconn"], BiH(s, x, p, fwd), c.hsz)))
BiRun(s, x) ==
  LET c == s.c
      o == TLCEval([i \in 1..c.len |-> FnV(c.outc, Vadd(Lin(s.w["outconn"], BiH(s, x, i, TRUE), c.osz),
                                            Lin(s.w[IF c.sym THEN "outconn" ELSE "outconnb"], BiH(s, x, i, FALSE), c.osz)))])
  IN [q \in 1..(c.osz * c.len) |-> o[((q - 1) \div c.osz) + 1][((q - 1) % c.osz) + 1]]
BiGroups(c) == {<<"inconn", c.isz * c.hsz>>, <<"outconn", c.osz * c.hsz>>, <<"fconn", c.hsz * c.hsz>>}
               \cup IF c.sym THEN {} ELSE {<<"inconnb", c.isz * c.hsz>>, <<"outconnb", c.osz * c.hsz>>, <<"bconn", c.hsz * c.hsz>>}

(* --------------------------------------------------------------- swiping *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Volume(dims) == LET RECURSIVE F(_)
                    F(k) == IF k > Len(dims) THEN 1 ELSE dims[k] * F(k + 1) IN F(1)
Index(dims, u) == LET RECURSIVE F(_, _)
                      F(k, a) == IF k > Len(dims) THEN a ELSE F(k + 1, a * dims[k] + u[k]) IN F(1, 0)
Units(dims) == [q \in 1..Volume(dims) |->   \* q-th unit in row-major order
   LET RECURSIVE F(_, _)
       F(k, r) == IF k = 0 THEN <<>> ELSE F(k - 1, r \div dims[k]) \o <<r % dims[k]>> IN F(Len(dims), q - 1)]
Plus(sw, d) == (sw \div Pow2(d - 1)) % 2 = 0      \* direction of swipe sw along dimension d
HKey(c, sw, d) == LET dd == IF c.symdim THEN 1 ELSE d
                  IN "h" \o ToString(dd - 1) \o (IF c.symdir THEN "" ELSE IF Plus(sw, d) THEN "+" ELSE "-")
HGroups(c) == {HKey(c, sw, d) : sw \in 0..(Pow2(Len(c.dims)) - 1), d \in 1..Len(c.dims)}
Remove(t, d) == SubSeq(t, 1, d - 1) \o SubSeq(t, d + 1, Len(t))
Canon(c, u, d) == LET r == Remove(u, d)
                      m == Remove(c.dims, d)
                  IN IF c.symdim THEN [k \in DOMAIN r |-> Min2(r[k], m[k] - 1 - r[k])] ELSE r
BordKey(c, d, t) == <<IF c.symdim THEN 0 ELSE d, t>>
BordKeys(c) == {BordKey(c, d, Canon(c, u, d)) : d \in 1..Len(c.dims), u \in {Units(c.dims)[q] : q \in 1..Volume(c.dims)}}
BordW(s, d, t) == IF s.c.simple THEN s.w["border"] ELSE (CHOOSE r \in {s.bord[q] : q \in DOMAIN s.bord} : <<r.d, r.t>> = BordKey(s.c, d, t)).v
HasBorder(c) == c.b \in {"border", "capture"}
HIn(c) == IF c.hidc = "mdlstm" THEN 5 * c.hsz ELSE c.hsz      \* meat part of the cell: gates and cell input
RECURSIVE SwH(_, _, _, _)
SwH(s, x, u, sw) ==
  LET c == s.c
      D == Len(c.dims)
      xi == Part(x, Index(c.dims, u) * c.isz, c.isz)
      prev(d) == IF Plus(sw, d) THEN [u EXCEPT ![d] = @ - 1] ELSE [u EXCEPT ![d] = @ + 1]
      in(v, d) == v[d] >= 0 /\ v[d] < c.dims[d]
      hp == TLCEval([d \in 1..D |-> IF in(prev(d), d) THEN SwH(s, x, prev(d), sw) ELSE [y |-> <<>>, s |-> Zero(c.hsz)]])
      contrib(d) == IF hp[d].y # <<>> THEN Lin(s.w[HKey(c, sw, d)], hp[d].y, HIn(c))
                    ELSE IF HasBorder(c) THEN BordW(s, d, Canon(c, u, d)) ELSE Zero(HIn(c))
      RECURSIVE All(_)
      All(d) == IF d = 0 THEN Lin(s.w["inconn"], xi, HIn(c)) ELSE Vadd(All(d - 1), contrib(d))
      a == TLCEval(All(D))
      RECURSIVE States(_)
      States(d) == IF d > D THEN <<>> ELSE hp[d].s \o States(d + 1)
  IN IF c.hidc = "mdlstm"
     THEN LET h == MdF([n |-> c.hsz, nd |-> 2, peep |-> FALSE], <<>>, a \o States(1))
          IN [y |-> SubSeq(h.y, 1, c.hsz), s |-> h.s]
     ELSE [y |-> FnV(c.hidc, a), s |-> Zero(c.hsz)]
SwRun(s, x) ==
  LET c == s.c
      us == Units(c.dims)
      o == TLCEval([q \in 1..Volume(c.dims) |->
             LET RECURSIVE F(_)
                 F(sw) == IF sw < 0 THEN (IF c.direct THEN Lin(s.w["direct"], Part(x, (q - 1) * c.isz, c.isz), c.osz) ELSE Zero(c.osz))
                          ELSE Vadd(F(sw - 1), Lin(s.w["outconn"], SwH(s, x, us[q], sw).y, c.osz))
             IN FnV(c.outc, F(Pow2(Len(c.dims)) - 1))])
  IN [q \in 1..(c.osz * Volume(c.dims)) |-> o[((q - 1) \div c.osz) + 1][((q - 1) % c.osz) + 1]]
SwParams(c) == c.isz * HIn(c) + c.osz * c.hsz + Cardinality(HGroups(c)) * c.hsz * HIn(c)
               + (IF c.direct THEN c.isz * c.osz ELSE 0)
               + (IF HasBorder(c) THEN HIn(c) * (IF c.simple THEN 1 ELSE Cardinality(BordKeys(c))) ELSE 0)

(* ---------------------------------------------------------- convolutional *)
ConvOut(s, x, isz) ==  \* x: isz*isz positions of c.isz values
  LET c == s.c
      od == isz - c.conv + 1
      L == c.conv * c.isz
      H == TLCEval([q \in 1..(od * od) |-> LET i == (q - 1) \div od
                                               j == (q - 1) % od
                  IN [f \in 1..c.maps |-> Tanh(SumSeq([k \in 1..c.conv |->
                        LET off == (isz * (i + k - 1) + j) * c.isz
                        IN SumSeq([p \in 1..L |-> Mul(s.w["conv" \o ToString(k - 1)][(f - 1) * L + p], x[off + p])])]))]])
  IN [q \in 1..(od * od) |-> Sig(SumSeq([f \in 1..c.maps |-> Mul(s.w["outconn"][f], H[q][f])]))]
Padded(s, x) ==
  LET c == s.c
      m == c.conv \div 2
      isz == c.size + 2 * m - (IF c.conv % 2 = 0 THEN 1 ELSE 0)
  IN [q \in 1..(isz * isz * 2) |->
        LET pos == (q - 1) \div 2
            ch == ((q - 1) % 2) + 1
            i == (pos \div isz) - m
            j == (pos % isz) - m
        IN IF i >= 0 /\ i < c.size /\ j >= 0 /\ j < c.size THEN x[(i * c.size + j) * 2 + ch] ELSE s.w["pad"][ch]]
BoardIn(c) == c.size + 2 * (c.conv \div 2) - (IF c.conv % 2 = 0 THEN 1 ELSE 0)
ConvParams(c) == c.conv * (c.conv * c.maps * c.isz) + c.maps + (IF c.b = "board" /\ c.conv > 1 THEN 2 ELSE 0)

(* ------------------------------------------- decomposition into neurons
   c.conns: sequence of [a, b, da, nb, out, self]; a weight k belongs to source unit k % da of a and
   neuron (k \div da) % nb of b; self: parameters of the neurons of module b themselves *)
Owner(c, q, k) == LET cn == c.conns[q]
                      dst == <<cn.b, (IF cn.self THEN k - 1 ELSE (k - 1) \div cn.da) % cn.nb>>
                  IN IF cn.self \/ ~(c.esp /\ cn.out) THEN dst ELSE <<cn.a, ((k - 1) % cn.da) % cn.na>>
Positions(s) == UNION {{<<q, k>> : k \in 1..Len(s.wc[q])} : q \in DOMAIN s.wc}
GroupsOf(s) == LET P == Positions(s) IN {{p \in P : Owner(s.c, p[1], p[2]) = o} : o \in {Owner(s.c, p[1], p[2]) : p \in P}}
Vals0(s, g) == {s.wc[p[1]][p[2]] : p \in g}
RangeQ(q) == {q[k] : k \in DOMAIN q}
DecBad(s, ret) ==
  (IF SumSeq([k \in DOMAIN ret |-> Len(ret[k])]) # Cardinality(Positions(s)) THEN {"decomposition is not a partition"} ELSE {})
  \cup (IF {RangeQ(ret[k]) : k \in DOMAIN ret} # {Vals0(s, g) : g \in GroupsOf(s)} THEN {"decomposition groups"} ELSE {})
SetDec(s, old, new) ==   \* old: the decomposition reported before, new: the values written in its place
  LET sub(v) == LET k == CHOOSE k \in DOMAIN old : \E j \in DOMAIN old[k] : old[k][j] = v
                    j == CHOOSE j \in DOMAIN old[k] : old[k][j] = v
                IN new[k][j]
  IN [s EXCEPT !.wc = TLCEval([q \in DOMAIN @ |-> [k \in DOMAIN @[q] |-> sub(@[q][k])]])]

(* ------------------------------------------------------------------ steps *)
EInit(cfg) == [c |-> cfg, w |-> <<>>, mem |-> <<>>, bord |-> <<>>, wc |-> <<>>]
NInd(c) == CASE c.b = "build" -> c.layers[1] [] c.b = "bidi" -> c.isz * c.len
             [] c.b = "conv" -> c.isz * c.size * c.size [] c.b = "board" -> 2 * c.size * c.size
             [] OTHER -> c.isz * Volume(c.dims)
NOut(c) == CASE c.b = "build" -> c.layers[NL(c)] [] c.b = "bidi" -> c.osz * c.len
             [] c.b = "conv" -> (c.size - c.conv + 1) * (c.size - c.conv + 1) [] c.b = "board" -> c.size * c.size
             [] OTHER -> c.osz * Volume(c.dims)
NPar(c) == CASE c.b = "build" -> BParams(c) [] c.b = "bidi" -> SumSeq([k \in 1..1 |-> LET RECURSIVE F(_)
                                                   F(S) == IF S = {} THEN 0 ELSE LET e == CHOOSE z \in S : TRUE IN e[2] + F(S \ {e}) IN F(BiGroups(c))])
             [] c.b \in {"conv", "board"} -> ConvParams(c)
             [] OTHER -> SwParams(c)
BuildBad(s, b) ==
  LET c == s.c
      ref == c.b = "build" /\ Refused(c)
  IN IF b.err # "" THEN (IF ref THEN {} ELSE {"construction failed: " \o b.err})
     ELSE IF ref THEN {"construction should be refused"}
     ELSE (IF b.indim # NInd(c) THEN {"input size"} ELSE {}) \cup (IF b.outdim # NOut(c) THEN {"output size"} ELSE {})
          \cup (IF b.pdim # NPar(c) THEN {"parameter count"} ELSE {}) \cup (IF ~b.sorted THEN {"not sorted"} ELSE {})
          \cup (IF c.b = "build" THEN
                  (IF RangeQ(b.mods) # BMods(c) \/ Len(b.mods) # Cardinality(BMods(c)) THEN {"modules"} ELSE {})
                  \cup (IF RangeQ(b.conns) # BConns(c) \/ Len(b.conns) # Cardinality(BConns(c)) THEN {"connections"} ELSE {})
                  \cup (IF RangeQ(b.rec) # BRec(c) \/ Len(b.rec) # Cardinality(BRec(c)) THEN {"recurrent connections"} ELSE {})
                  \cup (IF b.seq # BSeq(c) THEN {"network class"} ELSE {})
                ELSE {})
RunNet(s, x) ==
  LET c == s.c IN
  CASE c.b = "build" -> LET m == BRun(s, 1, x, <<>>) IN [s |-> [s EXCEPT !.mem = IF BSeq(c) THEN m ELSE <<>>], y |-> m["out"].y]
    [] c.b = "bidi" -> [s |-> s, y |-> BiRun(s, x)]
    [] c.b = "conv" -> [s |-> s, y |-> ConvOut(s, x, c.size)]
    [] c.b = "board" -> [s |-> s, y |-> ConvOut(s, TLCEval(Padded(s, x)), BoardIn(c))]
    [] OTHER -> [s |-> s, y |-> SwRun(s, x)]
ok(t) == [s |-> t, bad |-> {}]
EDo(s, b) ==
  CASE b.op = "build" -> [s |-> s, bad |-> BuildBad(s, b)]
    [] b.err # "" -> [s |-> s, bad |-> {"raised " \o b.err}]
    [] b.op = "w" -> ok([s EXCEPT !.w = b.w, !.bord = b.bord])
    [] b.op = "resize" -> (* known border weights and all others are carried over to the new size *)
         [s |-> [s EXCEPT !.c = [@ EXCEPT !.dims = b.dims], !.w = b.w, !.bord = b.bord],
          bad |-> (IF b.w # s.w THEN {"weights not carried over"} ELSE {})
                  \cup (IF \E r \in RangeQ(s.bord) : \A z \in RangeQ(b.bord) : z # r THEN {"border weights not carried over"} ELSE {})
                  \cup (IF b.pdim # SwParams([s.c EXCEPT !.dims = b.dims]) THEN {"parameter count"} ELSE {})]
    [] b.op = "act" -> LET r == RunNet(s, b.x) IN [s |-> r.s, bad |-> IF NearV(b.ret, r.y, IF s.c.b \in {"md", "capture", "swipe", "border"} THEN 40 ELSE 16, 100) THEN {} ELSE {"output"}]
    [] b.op = "reset" -> ok([s EXCEPT !.mem = <<>>])
    [] b.op = "wc" -> ok([s EXCEPT !.wc = b.wc])
    [] b.op = "getdec" -> [s |-> s, bad |-> DecBad(s, b.ret)]
    [] b.op = "setdec" -> LET t == SetDec(s, b.old, b.new)
                          IN [s |-> t, bad |-> (IF b.wc # t.wc THEN {"set decomposition"} ELSE {})
                                               \cup (IF b.ret # b.new THEN {"get after set"} ELSE {})]
-----------------------------------------------------------------------------
(* properties of the specification *)
CountInv(c) == c.b = "dec" \/ Refused(c) \/ NPar(c) >= 0
PartitionInv(s) == /\ UNION GroupsOf(s) = Positions(s)
                   /\ \A g, h \in GroupsOf(s) : g = h \/ g \cap h = {}
=============================================================================
