-------------------------------- MODULE Play --------------------------------
(* Playing games: tasks against a fixed opponent, tournaments with Elo ratings, and the moves of the built-in players.
   The rules of the games are those of Capture and Gomoku.
   cfg: game ("capture", "gomoku", "pente"), alt, win, coef (Q12), minm, maxm, opp0, n (players of the tournament)
   state: opp - colour of the opponent in the current game, next - in the following one, over, rew; res - results per pair; elo *)
EXTENDS Fixed, FiniteSets
Cap == INSTANCE Capture
Gom == INSTANCE Gomoku
If(b, x) == IF b THEN {} ELSE {x}
PInit(c) == [c |-> c, opp |-> 0, next |-> c.opp0, over |-> TRUE, rew |-> 0, moves |-> 0, res |-> [p \in (1..c.n) \X (1..c.n) |-> <<>>], rounds |-> 0, k |-> 0]
(* reward of a finished game for the player whose opponent has colour opp; winner 2 is a draw *)
Signed(c, opp, winner, moves) ==
  IF winner = 2 THEN 0
  ELSE LET v == c.win - (c.coef * (moves - c.minm)) \div (c.maxm - c.minm) IN IF winner = opp THEN -v ELSE v
Close(a, b, t) == Abs(a - b) <= t
Start(c, opp) == (IF c.game = "pente" THEN 1 ELSE 0) + (IF opp = 1 THEN 1 ELSE 0)
(* games of a series of evaluations: b.games[k] = [ac, oc, winner, moves, first] *)
SeriesBad(c, first, g, alt) ==
  UNION {LET want == IF alt /\ k % 2 = 0 THEN -first ELSE first IN
         If(g[k].oc = want /\ g[k].ac = -want, "colours of the players") \cup If(g[k].first = 1, "black moves first") \cup If(g[k].winner # 0, "games are played to the end") : k \in DOMAIN g}
Average(c, g) == SumSeq([k \in DOMAIN g |-> Signed(c, g[k].oc, g[k].winner, g[k].moves)])
(* ----------------------------------------------------------------- Elo; ratings in 256ths *)
TenPow(d) == Exp((d * 921) \div 10000)     \* 10^(d / 400)
EloStep(res, e, k, i, j) ==
  LET out == res[<<i, j>>] \o res[<<j, i>>]
      s2 == SumSeq([z \in DOMAIN out |-> IF out[z] = i THEN 2 ELSE IF out[z] = 0 THEN 1 ELSE 0])
      est == Len(out) * ((One * One) \div (One + TenPow(e[j] - e[i])))
      delta == (k * (s2 * 2048 - est)) \div 16
  IN TLCEval([e EXCEPT ![i] = @ + delta, ![j] = @ - delta])
RECURSIVE EloAll(_, _, _, _)
EloAll(res, e, k, ps) == IF ps = <<>> THEN e ELSE EloAll(res, EloStep(res, e, k, Head(ps)[1], Head(ps)[2]), k, Tail(ps))
RECURSIVE Pairs(_, _, _)
Pairs(n, i, j) == IF i >= n THEN <<>> ELSE IF j > n THEN Pairs(n, i + 1, i + 2) ELSE <<<<i, j>>>> \o Pairs(n, i, j + 1)
Ordered(n) == {p \in (1..n) \X (1..n) : p[1] # p[2]}
RECURSIVE AddAll(_, _)
AddAll(res, g) == IF g = <<>> THEN res
                  ELSE LET x == Head(g) IN AddAll(TLCEval([res EXCEPT ![<<x.p1, x.p2>>] = Append(@, IF x.winner = 2 THEN 0 ELSE IF x.winner = x.c1 THEN x.p1 ELSE x.p2)]), Tail(g))
(* --------------------------------------------------------------- players on a board *)
CapS(b) == [n |-> b.r, suicide |-> b.suicide, board |-> [p \in 0..(b.r * b.r - 1) |-> b.board[p + 1]]]
GomS(b) == [r |-> b.r, c |-> b.cc, pente |-> b.game = "pente", board |-> [p \in 0..(b.r * b.cc - 1) |-> b.board[p + 1]], pairs |-> b.pairs, winner |-> 0]
PlayerBad(b) ==
  LET cap == b.game = "capture"
      legal == IF cap THEN {p \in Cap!Empties(CapS(b)) : Cap!IsLegal(CapS(b), b.c, p)} ELSE Gom!Empties(GomS(b))
      kill == IF cap THEN Cap!Killing(CapS(b), b.c) ELSE Gom!Killing(GomS(b), b.c)
      okay == IF cap THEN Cap!Acceptable(CapS(b), b.c) ELSE legal
  IN If(b.mc = b.c, "moves its own colour") \cup If(b.p \in legal, "legal move")
     \cup If(b.kind # "killing" \/ kill = {} \/ b.p \in kill, "takes a winning move")
     \cup If(b.kind \notin {"killing", "nonsuicide"} \/ okay = {} \/ b.p \in okay, "avoids suicide")
     \cup (IF b.kind # "module" THEN {} ELSE
             If(b.inp = [k \in 1..(2 * Len(b.board)) |-> LET v == b.board[((k - 1) \div 2) + 1] IN IF v = (IF k % 2 = 1 THEN -b.c ELSE b.c) THEN 1 ELSE 0], "the module sees the board from its side")
             \cup If(~b.greedy \/ b.p \notin legal \/ \A q \in legal : b.out[q + 1] <= b.out[b.p + 1], "plays the best legal move"))
(* ------------------------------------------------------------------- steps *)
PDo(s, b) ==
  LET c == s.c IN
  IF b.err # "" THEN [s |-> s, bad |-> {"raised " \o b.err}] ELSE
  CASE b.op = "reset" ->
         LET over == b.winner # 0      \* the opponent may give up in its first move
             rew == IF over THEN Signed(c, s.next, b.winner, b.moves) ELSE 0
             next == IF over /\ c.alt THEN -s.next ELSE s.next
         IN [s |-> [s EXCEPT !.opp = s.next, !.over = over, !.rew = b.r, !.moves = b.moves, !.next = next],
             bad |-> If(~over \/ (s.next = 1 /\ b.winner = -1), "a new game is open") \cup If(b.opp = (IF over THEN next ELSE s.next), "colour of the opponent")
                     \cup If(b.moves = Start(c, s.next), "black moves first") \cup If(b.fin = over /\ Close(b.r, rew, 2) /\ Close(b.total, rew, 2), "a new game has no reward yet")]
    [] b.op = "act" ->
         LET over == b.winner # 0
             d == b.moves - s.moves
             rew == IF over THEN Signed(c, s.opp, b.winner, b.moves) ELSE 0
             next == IF over /\ c.alt THEN -s.opp ELSE s.opp
         IN [s |-> [s EXCEPT !.over = over, !.rew = b.r, !.moves = b.moves, !.next = next],
             bad |-> If(d = 2 \/ (over /\ d = 1), "players alternate") \cup If(b.last = (IF d = 1 THEN -s.opp ELSE s.opp), "players alternate")
                     \cup If(b.fin = over, "finished") \cup If(Close(b.r, rew, 2), "reward") \cup If(Close(b.total, rew, 2), "total reward")
                     \cup If(b.opp = (IF over THEN next ELSE s.opp), "colour of the opponent")]
    [] b.op = "peek" -> [s |-> s, bad |-> If(b.r = s.rew /\ b.fin = s.over /\ Close(b.total, s.rew, 2), "asking again") \cup If(b.opp = (IF s.over THEN s.next ELSE s.opp), "colour of the opponent")]
    [] b.op = "series" ->   \* average over several games
         [s |-> [s EXCEPT !.over = TRUE, !.next = b.opp],
          bad |-> SeriesBad(c, s.next, b.games, c.alt) \cup If(Len(b.games) = b.count, "number of games") \cup If(Close(b.r * b.count, Average(c, b.games), 4 * b.count), "average reward")]
    [] b.op = "relative" -> \* score of player 1 (black) relative to player 2; the k-th game has weight w
         [s |-> s, bad |-> If(Close(b.r * SumSeq([k \in DOMAIN b.games |-> b.games[k].w]), SumSeq([k \in DOMAIN b.games |-> b.games[k].w * Signed(c, -1, b.games[k].winner, b.games[k].moves)]), 4 * SumSeq([k \in DOMAIN b.games |-> b.games[k].w])), "relative score")
                           \cup If(\A k \in DOMAIN b.games : b.games[k].preset = (b.games[k].first = -1), "white answers a preset stone")]
    [] b.op = "organize" ->
         LET per == c.n * (c.n - 1) IN
         [s |-> [s EXCEPT !.res = AddAll(@, b.games), !.rounds = @ + b.rounds, !.k = @ + Len(b.games)],
          bad |-> If(Len(b.games) = b.rounds * per /\ \A q \in 0..(b.rounds - 1) : {<<b.games[q * per + k].p1, b.games[q * per + k].p2>> : k \in 1..per} = Ordered(c.n), "every ordered pair meets once per round")
                  \cup If(\A k \in DOMAIN b.games : LET g == b.games[k] IN g.c1 = b.start /\ g.c2 = -b.start, "colours of the players")
                  \cup If(\A k \in DOMAIN b.games : LET g == b.games[k] IN \A z \in DOMAIN g.movers : g.movers[z] = IF z % 2 = 1 THEN g.p1 ELSE g.p2, "players alternate")
                  \cup If(\A k \in DOMAIN b.games : b.games[k].legal, "only legal moves are played")
                  \cup If({<<x.p1, x.p2, x.out>> : x \in {b.res[k] : k \in DOMAIN b.res}} = {<<p[1], p[2], AddAll(s.res, b.games)[p]>> : p \in {p \in Ordered(c.n) : AddAll(s.res, b.games)[p] # <<>>}}, "results")
                  \cup If(b.total = s.k + Len(b.games) /\ b.rsum = s.rounds + b.rounds, "number of games")]
    [] b.op = "clear" -> [s |-> [s EXCEPT !.res = PInit(c).res, !.rounds = 0, !.k = 0], bad |-> {}]
    [] b.op = "elo" ->
         LET w == EloAll(s.res, b.before, b.k, Pairs(c.n, 1, 2)) IN
         [s |-> s, bad |-> If(Abs(SumSeq(b.after) - SumSeq(b.before)) <= c.n, "the total rating is conserved") \cup If(\A k \in 1..c.n : Close(b.after[k], w[k], 24 + b.k), "Elo ratings")
                           \cup If(b.after = b.kept, "agents keep their rating")]
    [] b.op = "player" -> [s |-> s, bad |-> PlayerBad(b)]
(* ------------------------------------------------------------ exploration: tasks against an opponent *)
POps(s) == IF s.k >= s.c.depth THEN {}
           ELSE IF s.over THEN {"reset"} \cup (IF s.opp = 0 THEN {} ELSE {"peek"}) ELSE {"go", "giveup", "opponent gives up", "peek"}
PNext0(s, op) ==
  LET t == [s EXCEPT !.k = @ + 1] IN
  CASE op = "reset" -> [t EXCEPT !.opp = s.next, !.over = FALSE, !.rew = 0]
    [] op = "go" -> t
    [] op = "peek" -> t
    [] OTHER -> LET w == IF op = "giveup" THEN s.opp ELSE -s.opp
                IN [t EXCEPT !.over = TRUE, !.rew = Signed(s.c, s.opp, w, 5), !.next = IF s.c.alt THEN -s.opp ELSE s.opp]
=============================================================================
