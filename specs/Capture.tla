------------------------------ MODULE Capture ------------------------------
(* The capture game (first capture wins), specified from the rules of Go:
   groups and liberties are computed from the board alone, never carried.

   State: [n, suicide, board, winner, moves, last]
     board[p] for p in 0..n*n-1 : 0 empty, 1 black, -1 white, 2 capturing stone ('x'), 3 suicide stone ('y')
     winner : 0 none, 1, -1
   A finished game is not continued (the caller stops at gameOver). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pts(n) == 0..(n * n - 1)
Row(n, p) == p \div n
Col(n, p) == p % n
Nbrs(n, p) == {q \in {p - n, p + n} : q >= 0 /\ q < n * n}
              \cup (IF Col(n, p) > 0 THEN {p - 1} ELSE {})
              \cup (IF Col(n, p) < n - 1 THEN {p + 1} ELSE {})

RECURSIVE Grow(_, _, _, _)
Grow(n, b, c, S) ==
  LET T == S \cup {q \in UNION {Nbrs(n, p) : p \in S} : b[q] = c}
  IN  IF T = S THEN S ELSE Grow(n, b, c, T)
Group(n, b, p) == Grow(n, b, b[p], {p})
LibSet(n, b, G) == {q \in UNION {Nbrs(n, p) : p \in G} : b[q] = 0}
Libs(n, b, p) == Cardinality(LibSet(n, b, Group(n, b, p)))

(* does placing c on the empty point p take an opponent group's last liberty? *)
Captures(n, b, c, p) ==
  \E q \in Nbrs(n, p) : b[q] = -c /\ LibSet(n, b, Group(n, b, q)) = {p}
(* would the new stone's own group be without liberties, capturing nothing? *)
Suicide(n, b, c, p) ==
  LET b2 == [b EXCEPT ![p] = c]
  IN  /\ LibSet(n, b2, Group(n, b2, p)) = {}
      /\ ~Captures(n, b, c, p)
(* the same, from a precomputed map of liberty sets (checked equal by FastInv) *)
LibMap(n, b) == TLCEval([p \in Pts(n) |-> IF b[p] \in {1, -1} THEN LibSet(n, b, Group(n, b, p)) ELSE {}])
CapturesL(n, b, L, c, p) == \E q \in Nbrs(n, p) : b[q] = -c /\ L[q] = {p}
SuicideL(n, b, L, c, p) ==
  /\ \A q \in Nbrs(n, p) : b[q] # 0
  /\ \A q \in Nbrs(n, p) : b[q] = c => L[q] = {p}
  /\ ~CapturesL(n, b, L, c, p)
Fast(s) == \A c \in {1, -1} : \A p \in {q \in Pts(s.n) : s.board[q] = 0} :
  /\ CapturesL(s.n, s.board, LibMap(s.n, s.board), c, p) = Captures(s.n, s.board, c, p)
  /\ SuicideL(s.n, s.board, LibMap(s.n, s.board), c, p) = Suicide(s.n, s.board, c, p)
Empties(s) == {p \in Pts(s.n) : s.board[p] = 0}
Acceptable(s, c) == {p \in Empties(s) : ~Suicide(s.n, s.board, c, p)}
Killing(s, c) == {p \in Acceptable(s, c) : Captures(s.n, s.board, c, p)}
IsLegal(s, c, p) == /\ p \in Empties(s)
                    /\ (s.suicide \/ ~Suicide(s.n, s.board, c, p))

(* while undecided every group on the board has a liberty *)
AllAlive(s) == s.winner = 0 =>
  \A p \in Pts(s.n) : s.board[p] \in {1, -1} => Libs(s.n, s.board, p) > 0
Init0(cfg) == [n |-> cfg.n, suicide |-> cfg.suicide, board |-> [p \in Pts(cfg.n) |-> 0],
               winner |-> 0, moves |-> 0, ill |-> 0, last |-> 0]

(* operations: [op |-> "move", c, p] with p = -1 for resignation and
   p = n*n for a point outside the board; [op |-> "reset"] *)
Move(s, c, p) ==
  IF p = -1 THEN [s |-> [s EXCEPT !.winner = -c, !.last = c, !.moves = @ + 1], ret |-> TRUE]
  ELSE IF ~IsLegal(s, c, p) THEN [s |-> [s EXCEPT !.last = c, !.ill = @ + 1], ret |-> FALSE]
  ELSE IF Suicide(s.n, s.board, c, p)
       THEN [s |-> [s EXCEPT !.winner = -c, !.last = c, !.moves = @ + 1, !.board[p] = 3], ret |-> TRUE]
  ELSE IF Captures(s.n, s.board, c, p)
       THEN [s |-> [s EXCEPT !.winner = c, !.last = c, !.moves = @ + 1, !.board[p] = 2], ret |-> TRUE]
  ELSE [s |-> [s EXCEPT !.last = c, !.moves = @ + 1, !.board[p] = c], ret |-> TRUE]

Step(s, op) == CASE op.op = "move" -> Move(s, op.c, op.p)
                 [] op.op = "reset" -> [s |-> Init0(s), ret |-> TRUE]
                 (* random boards and handicaps are chosen by the implementation: adopt
                    the reported board, which SetupBad then constrains *)
                 [] op.op \in {"random", "handicap"} ->
                      [s |-> [Init0(s) EXCEPT !.board = [p \in DOMAIN @ |-> op.obs.board[p + 1]]], ret |-> TRUE]
                 [] OTHER -> [s |-> s, ret |-> TRUE]
Next0(s, op) == Step(s, op).s

(* legal alternating play, used for exhaustive exploration *)
Ops(s) == IF s.winner # 0 THEN {}
          ELSE {[op |-> "move", c |-> IF s.last = 0 THEN 1 ELSE -s.last, p |-> p] :
                  p \in {q \in Pts(s.n) : IsLegal(s, IF s.last = 0 THEN 1 ELSE -s.last, q)}}

-----------------------------------------------------------------------------
(* Properties of the specification itself *)
TypeOK(s) == /\ \A p \in Pts(s.n) : s.board[p] \in {-1, 0, 1, 2, 3}
             /\ s.winner \in {-1, 0, 1}
(* exactly one special stone iff decided by capture/suicide *)
OneFinal(s) == (s.winner # 0) = (\E p \in Pts(s.n) : s.board[p] \in {2, 3})
(* capture game on a finite board always ends before it is full *)
NeverFull(s) == s.winner = 0 => Empties(s) # {}
(* liberties of a merged group are consistent from each of its stones *)
GroupConsistent(s) == \A p \in Pts(s.n) : s.board[p] \in {1, -1} =>
  \A q \in Group(s.n, s.board, p) : Group(s.n, s.board, q) = Group(s.n, s.board, p)
KillingAreLegal(s) == s.winner = 0 => \A c \in {1, -1} : Killing(s, c) \subseteq Acceptable(s, c)

-----------------------------------------------------------------------------
(* Judging a recorded step.  Observations after every step:
   ret, winner (0 none), over, last, board, sensors, arr (board array as pairs), libs[p], size[p] (-1 = None),
   legals/accept/kill for both colours (as sequences of points), legalq: isLegal for both colours *)
SetOf(q) == {q[k] : k \in DOMAIN q}
Distinct(q) == Cardinality(SetOf(q)) = Len(q)
Stones(t, c) == {p \in Pts(t.n) : t.board[p] = c}
SecondLine(n) == {p \in Pts(n) : /\ Row(n, p) \in 1..(n - 2) /\ Col(n, p) \in 1..(n - 2)
                                 /\ (Row(n, p) \in {1, n - 2} \/ Col(n, p) \in {1, n - 2})}
SetupBad(t, e) ==
  CASE e.op = "random" ->
         IF /\ Cardinality(Stones(t, 1)) - Cardinality(Stones(t, -1)) \in {0, 1}
            /\ Stones(t, 1) \cup Stones(t, -1) \cup Empties(t) = Pts(t.n)
            /\ e.ret = Cardinality(Stones(t, 1)) + Cardinality(Stones(t, -1))
            /\ e.ret <= e.k
            /\ AllAlive(t)
         THEN {} ELSE {"random board"}
    [] e.op = "handicap" ->
         IF /\ Stones(t, e.c) \subseteq SecondLine(t.n)
            /\ Stones(t, e.c) \cup Empties(t) = Pts(t.n)
            /\ Cardinality(Stones(t, e.c)) = (IF e.h < Cardinality(SecondLine(t.n)) THEN e.h ELSE Cardinality(SecondLine(t.n)))
         THEN {} ELSE {"handicap"}
    [] OTHER -> {}
Bad(t, r, e) ==
  IF e.err # "" THEN {"raised " \o e.err} ELSE
  SetupBad(t, e) \cup
  LET n == t.n
      L == LibMap(n, t.board)
      sui == TLCEval([c \in {1, -1} |-> {p \in Empties(t) : SuicideL(n, t.board, L, c, p)}])
      cap == TLCEval([c \in {1, -1} |-> {p \in Empties(t) : CapturesL(n, t.board, L, c, p)}])
      o == e.obs
      alive == \A p \in Pts(n) : t.board[p] \in {0, 1, -1}
  IN (IF o.ret # r.ret THEN {"return value"} ELSE {})
  \cup (IF o.winner # t.winner THEN {"winner"} ELSE {})
  \cup (IF o.over # (t.winner # 0) THEN {"gameOver"} ELSE {})
  \cup (IF o.board # [k \in 1..(n * n) |-> t.board[k - 1]] THEN {"board"} ELSE {})
  \cup (IF o.sensors # [k \in 1..(n * n) |-> t.board[k - 1]] THEN {"sensors"} ELSE {})
  \cup (IF o.arr # [k \in 1..(2 * n * n) |->
                     LET v == t.board[(k - 1) \div 2] IN
                     IF k % 2 = 1 THEN (IF v = -1 THEN 1 ELSE 0) ELSE (IF v = 1 THEN 1 ELSE 0)]
        THEN {"board array"} ELSE {})
  \cup (IF o.moves < t.moves \/ o.moves > t.moves + t.ill THEN {"move counter"} ELSE {})
  \cup (IF ~alive THEN {} ELSE
        (IF \E p \in Pts(n) : o.libs[p + 1] # (IF t.board[p] = 0 THEN -1 ELSE Cardinality(L[p])) THEN {"liberties"} ELSE {})
        \cup (IF \E p \in Pts(n) : o.size[p + 1] # (IF t.board[p] = 0 THEN -1 ELSE Cardinality(Group(n, t.board, p))) THEN {"group size"} ELSE {})
        \cup UNION {
          LET c == IF k = 1 THEN 1 ELSE -1 IN
          (IF SetOf(o.legals[k]) # Empties(t) \ (IF t.suicide THEN {} ELSE sui[c]) \/ ~Distinct(o.legals[k]) THEN {"legal moves"} ELSE {})
          \cup (IF SetOf(o.accept[k]) # Empties(t) \ sui[c] \/ ~Distinct(o.accept[k]) THEN {"acceptable moves"} ELSE {})
          \cup (IF SetOf(o.kill[k]) # (Empties(t) \ sui[c]) \cap cap[c] \/ ~Distinct(o.kill[k]) THEN {"killing moves"} ELSE {})
          \cup (IF o.islegal[k] # [j \in 1..(n * n) |-> (j - 1) \in Empties(t) /\ (t.suicide \/ (j - 1) \notin sui[c])] THEN {"isLegal"} ELSE {})
          : k \in 1..2})

Do(s, e) == LET r == Step(s, e) IN [s |-> r.s, bad |-> Bad(r.s, r, e)]
=============================================================================
