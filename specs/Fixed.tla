------------------------------- MODULE Fixed -------------------------------
(* Fixed-point arithmetic: the integer v stands for v / 4096. *)
EXTENDS Integers, Sequences, TLC
One == 4096
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MulP(a, b) == ((a \div 64) * b) \div 64 + ((a % 64) * b + 2048) \div One
Mul(a, b) == IF Abs(a) < Abs(b) THEN MulP(b, a) ELSE MulP(a, b)
Mul3(a, b, c) == Mul(Mul(a, b), c)
(* a / b, rounded down *)
DivP(a, b) == LET q == a \div b
                  r == a % b
              IN q * One + (IF b < 524288 THEN (r * One) \div b ELSE ((r \div 64) * One) \div (b \div 64))
Div(a, b) == IF b < 0 THEN DivP(-a, -b) ELSE DivP(a, b)
(* e^k for integer k, in fixed point *)
EInt == [k \in -9..6 |-> CASE k = -9 -> 1 [] k = -8 -> 1 [] k = -7 -> 4 [] k = -6 -> 10 [] k = -5 -> 28 [] k = -4 -> 75 [] k = -3 -> 204
                           [] k = -2 -> 554 [] k = -1 -> 1507 [] k = 0 -> 4096 [] k = 1 -> 11134 [] k = 2 -> 30266
                           [] k = 3 -> 82270 [] k = 4 -> 223634 [] k = 5 -> 607900 [] k = 6 -> 1652444]
Frac(f) ==  \* e^f for 0 <= f < 1
  LET t6 == One + f \div 7
      t5 == One + Mul(f, t6) \div 6
      t4 == One + Mul(f, t5) \div 5
      t3 == One + Mul(f, t4) \div 4
      t2 == One + Mul(f, t3) \div 3
      t1 == One + Mul(f, t2) \div 2
  IN One + Mul(f, t1)
Exp(x) == IF x < -9 * One THEN 0 ELSE IF x >= 7 * One THEN 1073741823
          ELSE Mul(EInt[x \div One], Frac(x % One))
(* natural logarithm of y >= 1, by bisection *)
RECURSIVE LnB(_, _, _)
LnB(y, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF Exp(m) <= y THEN LnB(y, m, hi) ELSE LnB(y, lo, m)
Ln(y) == LnB(y, 0, 6 * One)
Sig(x) == LET e == Exp(-Abs(x))
              s == (One * One) \div (One + e)
          IN IF x >= 0 THEN s ELSE One - s
SigD(x) == LET s == Sig(x) IN Mul(s, One - s)
Tanh(x) == LET e == Exp(-2 * Abs(x))
               t == ((One - e) * One) \div (One + e)
           IN IF x >= 0 THEN t ELSE -t
TanhD(x) == LET t == Tanh(x) IN One - Mul(t, t)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
MaxSeq(q) == LET RECURSIVE F(_, _)
                 F(k, m) == IF k > Len(q) THEN m ELSE F(k + 1, Max2(m, q[k]))
             IN F(2, q[1])
Softmax(x) == LET m == MaxSeq(x)
                  e == TLCEval([k \in DOMAIN x |-> Exp(x[k] - m)])
                  t == SumSeq(e)
              IN [k \in DOMAIN x |-> (e[k] * One) \div t]
(* the positive function used for standard deviations *)
Expln(x) == IF x < 0 THEN Exp(x) ELSE One + Ln(One + x)
ExplnD(x) == IF x < 0 THEN Exp(x) ELSE Div(One, One + x)
Near(a, b, tol, rel) == Abs(a - b) <= tol + (IF rel = 0 THEN 0 ELSE Abs(b) \div rel)
NearV(a, b, tol, rel) == Len(a) = Len(b) /\ \A k \in DOMAIN b : Near(a[k], b[k], tol, rel)
=============================================================================
