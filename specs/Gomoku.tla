------------------------------- MODULE Gomoku -------------------------------
(* Gomoku (five or more in a row) and Pente (additionally: enclosed opponent
   pairs are captured, five captured pairs win), on an r x c board.
   board[p]: 0 empty, 1 black, -1 white, 2 the winning stone
   winner: 0 none, 1, -1, 2 draw;  pairs: <<black, white>> captured pairs (Pente)
   line: the points explored by the exhaustive runs (all points for traces) *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pts(s) == 0..(s.r * s.c - 1)
In(s, x, y) == x >= 0 /\ x < s.r /\ y >= 0 /\ y < s.c
P(s, x, y) == x * s.c + y
Dirs == {<<0, 1>>, <<1, 0>>, <<1, 1>>, <<1, -1>>}
Dirs8 == Dirs \cup {<<0, -1>>, <<-1, 0>>, <<-1, -1>>, <<-1, 1>>}
Cell(s, p, d, k) == LET x == (p \div s.c) + k * d[1]
                        y == (p % s.c) + k * d[2]
                    IN IF In(s, x, y) THEN s.board[P(s, x, y)] ELSE 9
(* five in a row through p: some window of five containing p is all c (p itself counts as c) *)
FiveAt(s, c, p) == \E d \in Dirs : \E a \in 0..4 : \A k \in (0 - a)..(4 - a) : k = 0 \/ Cell(s, p, d, k) = c
(* stones enclosed by placing c at p *)
KillDirs(s, c, p) == {d \in Dirs8 : Cell(s, p, d, 1) = -c /\ Cell(s, p, d, 2) = -c /\ Cell(s, p, d, 3) = c}
PAt(s, p, d, k) == P(s, (p \div s.c) + k * d[1], (p % s.c) + k * d[2])
KilledBy(s, c, p) == UNION {{PAt(s, p, d, 1), PAt(s, p, d, 2)} : d \in KillDirs(s, c, p)}
CI(c) == IF c = 1 THEN 1 ELSE 2
Empties(s) == {p \in Pts(s) : s.board[p] = 0}
WinByPairs(s, c, p) == s.pente /\ s.pairs[CI(c)] + Cardinality(KillDirs(s, c, p)) >= 5
Killing(s, c) == {p \in Empties(s) : FiveAt(s, c, p) \/ WinByPairs(s, c, p)}

Center(cfg) == (cfg.r \div 2) * cfg.c + cfg.c \div 2
Init0(cfg) == [r |-> cfg.r, c |-> cfg.c, pente |-> cfg.pente, line |-> cfg.line,
               board |-> [p \in 0..(cfg.r * cfg.c - 1) |-> IF cfg.pente /\ p = Center(cfg) THEN -1 ELSE 0],
               winner |-> 0, pairs |-> <<0, 0>>, last |-> 0, wonby |-> "none"]

Move(s, c, p) ==
  IF p \notin Empties(s) THEN [s |-> [s EXCEPT !.last = c], ret |-> FALSE]
  ELSE IF FiveAt(s, c, p)
       THEN [s |-> [s EXCEPT !.winner = c, !.last = c, !.board[p] = 2, !.wonby = "row"], ret |-> TRUE]
  ELSE IF WinByPairs(s, c, p)
       THEN [s |-> [s EXCEPT !.winner = c, !.last = c, !.board[p] = 2, !.wonby = "pairs"], ret |-> TRUE]
  ELSE LET dead == IF s.pente THEN KilledBy(s, c, p) ELSE {}
           b2 == [q \in Pts(s) |-> IF q = p THEN c ELSE IF q \in dead THEN 0 ELSE s.board[q]]
           n == IF s.pente THEN Cardinality(KillDirs(s, c, p)) ELSE 0
           full == \A q \in Pts(s) : b2[q] # 0
       IN [s |-> [s EXCEPT !.last = c, !.board = b2, !.pairs[CI(c)] = @ + n, !.winner = IF full THEN 2 ELSE 0], ret |-> TRUE]
Step(s, op) == CASE op.op = "move" -> Move(s, op.c, op.p)
                 [] op.op = "reset" -> [s |-> Init0(s), ret |-> TRUE]
Next0(s, op) == Step(s, op).s
Ops(s) == IF s.winner # 0 THEN {}
          ELSE {[op |-> "move", c |-> c, p |-> p] : p \in {q \in Empties(s) : q \in s.line}, c \in {1, -1}}
LineH(r, c) == {(r \div 2) * c + k : k \in 0..(c - 1)}
LineV(r, c) == {k * c + c \div 2 : k \in 0..(r - 1)}
LineD(r, c) == {k * c + k : k \in 0..((IF r < c THEN r ELSE c) - 1)}
LineA(r, c) == {k * c + (c - 1 - k) : k \in 0..((IF r < c THEN r ELSE c) - 1)}
-----------------------------------------------------------------------------
(* properties of the specification *)
NoFive(s) == s.winner \in {0, 2} => \A p \in Pts(s) : s.board[p] \in {1, -1} => ~FiveAt(s, s.board[p], p)
PairsOk(s) == s.winner = 0 => s.pairs[1] < 5 /\ s.pairs[2] < 5
DrawFull(s) == (s.winner = 2) => Empties(s) = {}
UndecidedOpen(s) == s.winner = 0 => Empties(s) # {}
-----------------------------------------------------------------------------
SetOf(q) == {q[k] : k \in DOMAIN q}
Bad(s, t, r, e) ==
  (* a point outside the board may be refused by an exception or by returning False *)
  IF e.op = "move" /\ e.p \notin Pts(s) /\ e.err # "" THEN {}
  ELSE IF e.err # "" THEN {"raised " \o e.err} ELSE
  LET o == e.obs
      bd == [k \in 1..(t.r * t.c) |-> t.board[k - 1]]
      (* the stones enclosed by a move that wins by captures may or may not be taken off *)
      boardok == IF t.wonby = "pairs" THEN TRUE ELSE o.board = bd
  IN (IF o.ret # r.ret THEN {"return value"} ELSE {})
  \cup (IF o.winner # t.winner THEN {"winner"} ELSE {})
  \cup (IF o.over # (t.winner # 0) THEN {"gameOver"} ELSE {})
  \cup (IF ~boardok THEN {"board"} ELSE {})
  \cup (IF t.wonby # "pairs" /\ t.pente /\ o.pairs # t.pairs THEN {"captured pairs"} ELSE {})
  \cup (IF t.wonby = "pairs" THEN {} ELSE
        (IF o.sensors # bd THEN {"sensors"} ELSE {})
        \cup (IF o.arr # [k \in 1..(2 * t.r * t.c) |->
                     LET v == t.board[(k - 1) \div 2] IN
                     IF k % 2 = 1 THEN (IF v = -1 THEN 1 ELSE 0) ELSE (IF v = 1 THEN 1 ELSE 0)]
              THEN {"board array"} ELSE {})
        \cup UNION { LET c == IF k = 1 THEN 1 ELSE -1 IN
              (IF SetOf(o.legals[k]) # Empties(t) \/ Cardinality(SetOf(o.legals[k])) # Len(o.legals[k]) THEN {"legal moves"} ELSE {})
              \cup (IF t.winner = 0 /\ SetOf(o.kill[k]) # Killing(t, c) THEN {"killing moves"} ELSE {})
              \cup (IF o.islegal[k] # [j \in 1..(t.r * t.c) |-> t.board[j - 1] = 0] THEN {"isLegal"} ELSE {})
              : k \in 1..2})
  \cup (IF e.via = "perform" /\ o.last # e.c THEN {"last player"} ELSE {})
Do(s, e) == LET r == Step(s, e) IN [s |-> r.s, bad |-> Bad(s, r.s, r, e)]
=============================================================================
