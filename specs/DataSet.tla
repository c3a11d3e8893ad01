------------------------------ MODULE DataSet ------------------------------
(* A collection of dataset objects under any history of edits.
   objs[o] = [cls, seq, f, dims, link, starts, idx, vf, ncls]
     f[label]    rows of the field (a sequence of integer sequences)
     dims[label] its width         link  the labels appended together
     starts      first row (0-based) of every sequence (sequential classes)
     idx         the current row marker     vf  vector format
   n stamps the appends, so that rows of different appends differ. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Plain == {"DataSet", "SupervisedDataSet", "UnsupervisedDataSet", "ClassificationDataSet"}
Seqs == {"SequentialDataSet", "ImportanceDataSet", "ReinforcementDataSet", "SequenceClassificationDataSet"}
Classy == {"ClassificationDataSet", "SequenceClassificationDataSet"}
Range(q) == {q[k] : k \in DOMAIN q}
LabelsOf(cls) == CASE cls = "DataSet" -> <<"a", "b">>
                   [] cls = "UnsupervisedDataSet" -> <<"sample">>
                   [] cls = "ImportanceDataSet" -> <<"input", "target", "importance">>
                   [] cls = "ReinforcementDataSet" -> <<"state", "action", "reward">>
                   [] OTHER -> <<"input", "target">>
AllLabels(cls) == IF cls \in Classy THEN Append(LabelsOf(cls), "class") ELSE LabelsOf(cls)
(* cfg: cls, d1, d2 (dimensions), rows0: initial rows handed to the constructor (as <<row1, row2>> pairs) *)
DimOf(cfg, l) == CASE l \in {"input", "state", "a", "sample"} -> cfg.d1
                   [] l \in {"reward"} -> 1
                   [] OTHER -> cfg.d2
New(cfg) == LET ls == AllLabels(cfg.cls)
                r0 == cfg.rows0
                pick(l) == IF r0 = <<>> THEN <<>>
                           ELSE [k \in DOMAIN r0 |-> IF l = "input" THEN r0[k][1] ELSE r0[k][2]]
            IN [cls |-> cfg.cls, seq |-> cfg.cls \in Seqs,
                f |-> [l \in Range(ls) |-> pick(l)],
                dims |-> [l \in Range(ls) |-> DimOf(cfg, l)],
                link |-> LabelsOf(cfg.cls), starts |-> IF cfg.cls \in Seqs THEN <<0>> ELSE <<>>, idx |-> 0, vf |-> "none"]
Init0(cfg) == [objs |-> <<New(cfg)>>, n |-> 1, d1 |-> cfg.d1, d2 |-> cfg.d2]

Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
LenOf(d) == IF d.link # <<>> THEN Len(d.f[d.link[1]]) ELSE Max({Len(d.f[l]) : l \in DOMAIN d.f})
NSeq(d) == Len(d.starts)
EndOf(d, i) == IF i + 1 = NSeq(d) THEN LenOf(d) ELSE d.starts[i + 2]
SeqLen(d, i) == EndOf(d, i) - d.starts[i + 1]
SeqRows(d, i, l) == SubSeq(d.f[l], d.starts[i + 1] + 1, EndOf(d, i))
CurSeq(d) == Cardinality({k \in DOMAIN d.starts : d.starts[k] <= d.idx}) - 1
ColSum(rows, j) == LET RECURSIVE Sum(_)
                       Sum(k) == IF k = 0 THEN 0 ELSE rows[k][j] + Sum(k - 1)
                   IN Sum(Len(rows))

(* ------------------------------------------------------------ operations *)
Ok(d) == [d |-> d, ok |-> TRUE, ret |-> <<>>]
No(d) == [d |-> d, ok |-> FALSE, ret |-> <<>>]
Ret(d, v) == [d |-> d, ok |-> TRUE, ret |-> v]
AddRows(d, rows) ==   \* one linked append
  IF Len(rows) # Len(d.link) \/ \E k \in DOMAIN rows : Len(rows[k]) # d.dims[d.link[k]] THEN No(d)
  ELSE Ok([d EXCEPT !.f = [l \in DOMAIN d.f |->
             IF \E k \in DOMAIN d.link : d.link[k] = l
             THEN Append(d.f[l], rows[CHOOSE k \in DOMAIN d.link : d.link[k] = l]) ELSE d.f[l]]])
AppendOne(d, l, row) == IF l \in Range(d.link) \/ Len(row) # d.dims[l] THEN No(d) ELSE Ok([d EXCEPT !.f[l] = Append(@, row)])
Links(d, ls) == IF \E k \in DOMAIN ls : Len(d.f[ls[k]]) # Len(d.f[ls[1]]) THEN No(d) ELSE Ok([d EXCEPT !.link = ls])
Unlinks(d, ls) == Ok([d EXCEPT !.link = IF ls = <<>> THEN <<>> ELSE SelectSeq(@, LAMBDA l : l \notin Range(ls))])
Fresh(d, l, dim) == Ok([d EXCEPT !.f = (l :> <<>>) @@ @, !.dims = (l :> dim) @@ @])
SetF(d, l, rows) == Ok([d EXCEPT !.f = (l :> rows) @@ @, !.dims = (l :> Len(rows[1])) @@ @])
(* every linked field is replaced, by as many rows each, and the marker goes back to the start *)
SetAll(d, rows) == Ok([d EXCEPT !.idx = 0, !.f = [l \in DOMAIN d.f |->
             IF \E k \in DOMAIN d.link : d.link[k] = l THEN rows[CHOOSE k \in DOMAIN d.link : d.link[k] = l] ELSE d.f[l]]])
Cleared(d, all) == LET ks == IF d.seq \/ d.link = <<>> \/ all THEN DOMAIN d.f
                             ELSE Range(d.link) \cup (DOMAIN d.f \cap {"class"})
                   IN [d EXCEPT !.idx = 0, !.f = [l \in DOMAIN d.f |-> IF l \in ks THEN <<>> ELSE d.f[l]],
                                !.starts = IF d.seq THEN <<0>> ELSE <<>>]
RowAt(d, i) == [k \in DOMAIN d.link |-> d.f[d.link[k]][i + 1]]
Get(d, i) == LET j == IF i < 0 THEN i + LenOf(d) ELSE i
             IN IF d.link = <<>> \/ j < 0 \/ j >= LenOf(d) THEN No(d) ELSE Ret([d EXCEPT !.idx = j + 1], RowAt(d, j))
IterAll(d) == IF d.seq THEN Ret(d, [i \in 1..NSeq(d) |-> [k \in 1..SeqLen(d, i - 1) |-> RowAt(d, d.starts[i] + k - 1)]])
              ELSE IF d.link = <<>> THEN (IF LenOf(d) = 0 THEN Ret([d EXCEPT !.idx = 0], <<>>) ELSE No([d EXCEPT !.idx = 0]))
              ELSE Ret([d EXCEPT !.idx = LenOf(d)], [i \in 1..LenOf(d) |-> RowAt(d, i - 1)])
LastEmpty(d) == d.starts[NSeq(d)] = LenOf(d)
NewSeq(d) == IF LastEmpty(d) THEN Ok(d) ELSE Ok([d EXCEPT !.starts = Append(@, LenOf(d))])
Assign(d) == IF Len(d.f["class"]) < Len(d.f["target"]) THEN [d EXCEPT !.f["class"] = d.f["target"]] ELSE d
Cut(q, a, b) == SubSeq(q, 1, a) \o SubSeq(q, b + 1, Len(q))
RemoveSeq(d0, i) ==
  LET d == IF d0.cls = "SequenceClassificationDataSet" THEN Assign(d0) ELSE d0
      cutl == Range(d.link) \cup (IF d0.cls = "SequenceClassificationDataSet" THEN {"class"} ELSE {})
      a == d.starts[i + 1]
      b == EndOf(d, i)
      last == i + 1 = NSeq(d)
      d2 == [d EXCEPT !.f = [l \in DOMAIN d.f |-> IF l \in cutl THEN Cut(d.f[l], a, b) ELSE d.f[l]],
                      !.starts = [k \in 1..(NSeq(d) - 1) |-> IF k <= i THEN d.starts[k] ELSE d.starts[k + 1] - (b - a)]]
  IN IF i >= NSeq(d0) THEN No(d)
     ELSE IF last THEN (IF LenOf(d2) = 0 THEN Ok(Cleared(d2, TRUE)) ELSE Ok([d2 EXCEPT !.idx = LenOf(d2)]))
     ELSE Ok([d2 EXCEPT !.idx = d2.starts[i + 1]])
GotoSeq(d, i) == IF i >= NSeq(d) THEN No(d) ELSE Ok([d EXCEPT !.idx = d.starts[i + 1]])

(* the edit of one object *)
Edit(d, op) == CASE op.op = "add" -> AddRows(d, op.rows)
                 [] op.op = "append" -> AppendOne(d, op.l, op.row)
                 [] op.op = "link" -> Links(d, op.ls)
                 [] op.op = "unlink" -> Unlinks(d, op.ls)
                 [] op.op = "field" -> Fresh(d, op.l, op.dim)
                 [] op.op = "set" -> SetF(d, op.l, op.rows)
                 [] op.op = "setall" -> SetAll(d, op.many)
                 [] op.op = "poke" -> Ok([d EXCEPT !.f[op.l][op.i + 1] = op.row])
                 [] op.op = "convert" -> Ok(d)
                 [] op.op = "clear" -> Ok(Cleared(d, op.all))
                 [] op.op = "reset" -> Ok([d EXCEPT !.idx = 0])
                 [] op.op = "get" -> Get(d, op.i)
                 [] op.op = "next" -> Get(d, d.idx)
                 [] op.op = "iter" -> IterAll(d)
                 [] op.op = "vf" -> Ok([d EXCEPT !.vf = op.vf])
                 [] op.op = "badvf" -> No(d)
                 [] op.op = "newseq" -> NewSeq(d)
                 [] op.op = "rmseq" -> RemoveSeq(d, op.i)
                 [] op.op = "goto" -> GotoSeq(d, op.i)
                 [] op.op = "assign" -> Ok(Assign(d))
Step(s, op) ==
  CASE op.op \in {"copy", "save"} -> [s |-> [s EXCEPT !.objs = Append(@, s.objs[op.o])], ok |-> TRUE, ret |-> <<>>]
    [] OTHER -> LET r == Edit(s.objs[op.o], op)
                IN [s |-> [s EXCEPT !.objs[op.o] = r.d, !.n = @ + 1], ok |-> r.ok, ret |-> r.ret]
Next0(s, op) == Step(s, op).s

(* ------------------------------------------------ operations to explore *)
RowFor(s, d, k) == [j \in 1..d.dims[d.link[k]] |-> 100 * s.n + 10 * k + j]
Rows(s, d) == [k \in DOMAIN d.link |-> RowFor(s, d, k)]
OpsOn(s, o) ==
  LET d == s.objs[o] IN
  {[op |-> "next", o |-> o], [op |-> "reset", o |-> o], [op |-> "clear", o |-> o, all |-> FALSE], [op |-> "iter", o |-> o]}
  \cup {[op |-> "get", o |-> o, i |-> i] : i \in {0, LenOf(d) - 1, LenOf(d), -1}}
  \cup (IF d.link # <<>> /\ LenOf(d) < 5 THEN {[op |-> "add", o |-> o, rows |-> Rows(s, d)]} ELSE {})
  \cup (IF d.link # <<>>
        THEN {[op |-> "add", o |-> o, rows |-> [Rows(s, d) EXCEPT ![Len(d.link)] = Append(Append(@, 7), 8)]],
              [op |-> "add", o |-> o, rows |-> Tail(Rows(s, d))],
              [op |-> "append", o |-> o, l |-> d.link[1], row |-> RowFor(s, d, 1)]} ELSE {})
  \cup (IF "u" \notin DOMAIN d.f THEN {[op |-> "field", o |-> o, l |-> "u", dim |-> 2]}
        ELSE IF Len(d.f["u"]) < 2 THEN {[op |-> "append", o |-> o, l |-> "u", row |-> <<s.n, s.n + 1>>]} ELSE {})
  \cup (IF d.cls = "DataSet" THEN {[op |-> "link", o |-> o, ls |-> <<"b", "a">>], [op |-> "unlink", o |-> o, ls |-> <<"b">>],
                                   [op |-> "unlink", o |-> o, ls |-> <<>>]} ELSE {})
  \cup (IF d.seq THEN {[op |-> "newseq", o |-> o]} \cup {[op |-> "rmseq", o |-> o, i |-> i] : i \in 0..NSeq(d)}
                      \cup {[op |-> "goto", o |-> o, i |-> i] : i \in 0..NSeq(d)} ELSE {})
  \cup (IF d.cls \in Classy THEN {[op |-> "assign", o |-> o]}
        ELSE IF d.link # <<>> /\ ~d.seq
        THEN {[op |-> "setall", o |-> o, many |-> [k \in DOMAIN d.link |-> [i \in 1..m |-> [j \in 1..d.dims[d.link[k]] |-> 100 * s.n + 10 * k + 5 * i + j]]]] : m \in 1..2}
        ELSE {})
Ops(s) == UNION {OpsOn(s, o) : o \in DOMAIN s.objs}
          \cup (IF Len(s.objs) < 2 THEN {[op |-> "copy", o |-> 1, compact |-> FALSE], [op |-> "save", o |-> 1, compact |-> TRUE],
                                         [op |-> "save", o |-> 1, compact |-> FALSE]} ELSE {})
-----------------------------------------------------------------------------
(* properties of the specification *)
Aligned(d) == \A k \in DOMAIN d.link : Len(d.f[d.link[k]]) = LenOf(d)
SameAppend(d) == \A k \in DOMAIN d.link : \A i \in 1..LenOf(d) : d.f[d.link[k]][i][1] \div 100 = d.f[d.link[1]][i][1] \div 100
Ordered(d) == \A l \in DOMAIN d.f : \A i, j \in DOMAIN d.f[l] : i < j => d.f[l][i] # d.f[l][j]
Partition(d) == d.seq => /\ NSeq(d) >= 1 /\ d.starts[1] = 0 /\ d.starts[NSeq(d)] <= LenOf(d)
                         /\ \A k \in 1..(NSeq(d) - 1) : d.starts[k] < d.starts[k + 1]
MarkerOk(d) == d.link # <<>> => d.idx <= LenOf(d) \/ d.cls = "DataSet"
Widths(d) == \A l \in DOMAIN d.f : \A i \in DOMAIN d.f[l] : Len(d.f[l][i]) = d.dims[l]
-----------------------------------------------------------------------------
(* judging a recorded step *)
SeqObsBad(d, b) ==
  (IF b.nseq # NSeq(d) THEN {"getNumSequences"} ELSE
     (IF b.lens # [i \in 1..NSeq(d) |-> SeqLen(d, i - 1)] THEN {"getSequenceLength"} ELSE {})
     \cup (IF b.seqs # [i \in 1..NSeq(d) |-> [k \in DOMAIN d.link |-> SeqRows(d, i - 1, d.link[k])]] THEN {"getSequence"} ELSE {})
     \cup (IF b.cur # CurSeq(d) THEN {"getCurrentSequence"} ELSE {})
     \cup (IF b.eos # [i \in 1..NSeq(d) |-> IF i = NSeq(d) THEN d.idx = LenOf(d) ELSE d.idx >= d.starts[i + 1]] THEN {"endOfSequence"} ELSE {})
     \cup (IF d.cls = "ReinforcementDataSet" /\
              b.sums # [i \in 1..NSeq(d) |-> <<ColSum(SeqRows(d, i - 1, "reward"), 1), ColSum(SeqRows(d, i - 1, "state"), 1)>>]
           THEN {"getSumOverSequences"} ELSE {})
     \cup (IF b.beyond # <<TRUE, TRUE, TRUE>> THEN {"sequence beyond the last is answered"} ELSE {}))
ObjBad(d, b) ==
  IF b.err # "" THEN {"observing raised " \o b.err} ELSE
  (IF b.cls # d.cls THEN {"class"} ELSE {})
  \cup (IF DOMAIN b.f # DOMAIN d.f THEN {"field names"} ELSE
          (IF \E l \in DOMAIN d.f : b.f[l] # d.f[l] THEN {"field rows"} ELSE {})
          \cup (IF \E l \in DOMAIN d.f : b.dims[l] # d.dims[l] THEN {"dimensions"} ELSE {}))
  \cup (IF b.link # d.link THEN {"links"} ELSE {})
  \cup (IF b.len # LenOf(d) THEN {"len"} ELSE {})
  \cup (IF b.idx # d.idx THEN {"current index"} ELSE {})
  \cup (IF b.eod # (d.idx = LenOf(d)) THEN {"endOfData"} ELSE {})
  \cup (IF b.fkind # (IF d.vf = "list" THEN "list" ELSE "array") THEN {"field format"} ELSE {})
  \cup (IF d.seq THEN SeqObsBad(d, b) ELSE {})
RetBad(s, r, e) ==
  IF ~r.ok THEN {}
  ELSE IF e.op \in {"get", "next"}
       THEN (IF e.ret # r.ret THEN {"row returned"} ELSE {})
            \cup (IF e.kind # (IF s.objs[e.o].vf = "none" THEN "1d" ELSE s.objs[e.o].vf) THEN {"vector format"} ELSE {})
  ELSE IF e.op = "iter" THEN (IF e.ret # r.ret THEN {"iteration"} ELSE {})
  ELSE {}
(* the marker and the vector format of a copy are left open: they start afresh or are taken over *)
Resolve(s, r, e) ==
  IF e.op \in {"copy", "save"} /\ Len(e.obs) = Len(r.s.objs)
  THEN LET k == Len(r.s.objs)
           b == e.obs[k]
       IN IF b.err = "" THEN [r EXCEPT !.s.objs[k].idx = IF b.idx \in {0, s.objs[e.o].idx} THEN b.idx ELSE 0,
                                       !.s.objs[k].vf = IF b.fkind = "array" /\ s.objs[e.o].vf = "list" THEN "none" ELSE b.vf]
          ELSE r
  ELSE r
(* starting a new sequence while the current one is empty may be refused *)
MayRefuse(s, e) == e.op = "newseq" /\ LastEmpty(s.objs[e.o])
Do(s, e) ==
  LET r == Resolve(s, Step(s, e), e)
      err == (e.err # "")
  IN [s |-> r.s,
      bad |-> (IF err /\ r.ok /\ ~MayRefuse(s, e) THEN {"raised " \o e.err} ELSE {})
              \cup (IF ~err /\ ~r.ok THEN {"accepted an invalid request"} ELSE {})
              \cup (IF ~err THEN RetBad(s, r, e) ELSE {})
              \cup (IF Len(e.obs) # Len(r.s.objs) THEN {"object missing"}
                    ELSE UNION {ObjBad(r.s.objs[o], e.obs[o]) : o \in DOMAIN r.s.objs})]
=============================================================================
