------------------------------- MODULE Laminate -------------------------------
(* A laminate: plies listed from the top (along the normal) to the bottom, each *)
(* with a stiffness on its own axes, which are turned by an angle from the first *)
(* parameter line.  Stiffnesses act on engineering strains << e11, e22, 2 e12 >> *)
EXTENDS Fields, Gauss, Sequences, Integers

\* stiffness of an orthotropic ply in its own axes, rows one after the other
Ortho(e1, e2, g12, nu12) ==
  LET nu21 == RDiv(RMul(nu12, e2), e1)
      q == RDiv(One, RSub(One, RMul(nu12, nu21)))
  IN << RMul(q, e1), RMul(q, RMul(nu21, e1)), Zero, RMul(q, RMul(nu12, e2)), RMul(q, e2), Zero, Zero, Zero, g12 >>
Mat3Vec(m, v) == << VDot(SubSeq(m, 1, 3), v), VDot(SubSeq(m, 4, 6), v), VDot(SubSeq(m, 7, 9), v) >>
\* strain components << e11, e22, e12 >> on axes turned by an angle with cosine c and sine s, and stresses back
Turn(e, c, s) ==
  << RAdd(RAdd(RMul(Sq(c), e[1]), RMul(Sq(s), e[2])), RMul(Two, RMul(RMul(s, c), e[3]))),
     RSub(RAdd(RMul(Sq(s), e[1]), RMul(Sq(c), e[2])), RMul(Two, RMul(RMul(s, c), e[3]))),
     RAdd(RMul(RMul(s, c), RSub(e[2], e[1])), RMul(RSub(Sq(c), Sq(s)), e[3])) >>
\* answer of one ply (own stiffness q, angle cs) to the strain tensor e of the surface p: contravariant stress
PlyStress(q, cs, p, e) ==
  LET f == Turn(Strains(e, p), cs[1], cs[2])
      n == Turn(Mat3Vec(q, Eng(f)), cs[1], RNeg(cs[2]))
  IN OnFrame(n, Frame(p), ConBase(<< p[1], p[2] >>))

RECURSIVE SumT(_, _)
SumT(ts, i) == IF i = 0 THEN Zero ELSE RAdd(ts[i], SumT(ts, i - 1))
\* m-th moment about the mid-surface of the ply i of the stack ts
PlyMoment(ts, i, m) ==
  LET tot == SumT(ts, Len(ts))
      top == RSub(RMul(Half, tot), SumT(ts, i - 1))
      bot == RSub(top, ts[i])
  IN CASE m = 0 -> RSub(top, bot)
       [] m = 1 -> RMul(Half, RSub(Sq(top), Sq(bot)))
       [] m = 2 -> RDiv(RSub(RMul(top, Sq(top)), RMul(bot, Sq(bot))), RI(3))
RECURSIVE Stack(_, _, _, _, _, _)
\* sum over the plies i.. of the m-th moment times the ply's answer to e
Stack(qs, css, ts, p, e, m) ==
  LET F[i \in 1..Len(ts)] == LET x == VScale(PlyMoment(ts, i, m), PlyStress(qs[i], css[i], p, e)) IN IF i = 1 THEN x ELSE VAdd(F[i - 1], x)
  IN F[Len(ts)]
\* columns of the m-th stiffness: answers to unit engineering strains
Stiffness(qs, css, ts, p, m) ==
  Stack(qs, css, ts, p, << One, Zero, Zero >>, m) \o Stack(qs, css, ts, p, << Zero, One, Zero >>, m) \o Stack(qs, css, ts, p, << Zero, Zero, Half >>, m)
=============================================================================
