--------------------------------- MODULE Gauss ---------------------------------
(* Gauss-Legendre rules on [-1/2, 1/2], from the Legendre recurrence.          *)
EXTENDS Mechanics
Pi == RParse("3.14159265358979323846")
\* <<P_n(x), P_{n-1}(x)>>
RECURSIVE Leg(_, _)
Leg(n, x) ==
  IF n = 1 THEN << x, One >>
  ELSE LET q == Leg(n - 1, x) IN
       << RDiv(RSub(RMul(RMul(RI(2 * n - 1), x), q[1]), RMul(RI(n - 1), q[2])), RI(n)), q[1] >>
LegD(n, x) == LET q == Leg(n, x) IN RDiv(RMul(RI(n), RSub(RMul(x, q[1]), q[2])), RSub(Sq(x), One))
RECURSIVE LegRoot(_, _, _)
LegRoot(n, x, k) == IF k = 0 THEN x ELSE LegRoot(n, RSub(x, RDiv(Leg(n, x)[1], LegD(n, x))), k - 1)
GNode(n, i) == IF n = 1 THEN Zero ELSE LegRoot(n, RCos(RMul(Pi, RDiv(RQ(4 * i - 1, 4), RAdd(RI(n), Half)))), 12)
GWeight(n, x) == RDiv(Two, RMul(RSub(One, Sq(x)), Sq(LegD(n, x))))
\* sequence of <<node, weight>> on [-1/2, 1/2]
Rule(n) == [i \in 1..n |-> LET x == GNode(n, i) IN << RMul(Half, x), IF n = 1 THEN One ELSE RMul(Half, GWeight(n, x)) >>]
GaussRules == [n \in 1..7 |-> Rule(n)]
=============================================================================
