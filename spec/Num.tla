-------------------------------- MODULE Num --------------------------------
(* Fixed-point arithmetic. Every physical quantity of the specification is  *)
(* an integer number of thousandths (S = 1000). TLC integers are 32 bit and *)
(* TLC stops with an error on overflow, so products go through MulDiv.      *)
EXTENDS Integers, Sequences, FiniteSets

S == 1000
INF == 2000000001        \* an unbounded value
NAN == 2000000002        \* "no value"

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

IsNum(x) == x # NAN /\ Abs(x) < INF

(* |a - b| <= tol, infinities only close to themselves *)
Close(a, b, tol) == IF IsNum(a) /\ IsNum(b) THEN Abs(a - b) <= tol ELSE a = b
Leq(a, b, tol) == \/ b = INF /\ a # NAN
                  \/ a = -INF /\ b # NAN
                  \/ IsNum(a) /\ IsNum(b) /\ a <= b + tol
                  \/ a = INF /\ b = INF

(* truncating division towards zero, and a*b/c without overflow of a*b *)
DivT(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
(* division rounded to nearest *)
DivR(a, b) == LET x == Abs(a) y == Abs(b) q == x \div y r == x % y
                  m == IF r >= y - r THEN q + 1 ELSE q
              IN IF (a < 0) = (b < 0) THEN m ELSE -m
RECURSIVE MulDivP(_, _, _)
MulDivP(a, b, c) ==       \* a, b >= 0, c > 0, nearest
  LET qa == a \div c  ra == a % c IN
  IF ra = 0 \/ b = 0 \/ b <= 2000000000 \div (ra + 1) THEN qa * b + DivR(ra * b, c)
  ELSE LET qb == b \div c  rb == b % c IN      \* a*b = a*qb*c + a*rb
       IF rb = 0 THEN a * qb
       ELSE IF a <= 2000000000 \div (rb + 1) THEN a * qb + DivR(a * rb, c)
       ELSE \* split off a half of the larger factor
         MulDivP(a, b \div 2, c) + MulDivP(a, b - (b \div 2), c)
MulDiv(a, b, c) ==
  LET m == MulDivP(Abs(a), Abs(b), Abs(c))
      neg == ((a < 0) # (b < 0)) # (c < 0)
  IN IF neg THEN -m ELSE m
Mul(a, b) == MulDiv(a, b, S)                 \* product of two fixed-point numbers

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
SumSeq(s) == SumTo(s, Len(s))
(* sum of f(i) over a finite set of integers *)
RECURSIVE SumSet(_, _)
SumSet(F(_), set) == IF set = {} THEN 0
                     ELSE LET x == CHOOSE y \in set : TRUE IN F(x) + SumSet(F, set \ {x})
RECURSIVE SumSeqOf(_, _, _)
SumSeqOf(F(_), s, n) == IF n = 0 THEN 0 ELSE SumSeqOf(F, s, n - 1) + F(s[n])
SumOver(F(_), s) == SumSeqOf(F, s, Len(s))
MinSeq(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x <= s[i]
MaxSeq(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x >= s[i]
Last(s) == s[Len(s)]
Idx(s) == 1..Len(s)
============================================================================
