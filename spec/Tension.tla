------------------------------- MODULE Tension -------------------------------
(* Tension field theory of membranes: a material point is taut, wrinkled or     *)
(* slack; a wrinkled point carries the stress that is left when the base law is *)
(* relaxed by a rank-one wrinkling strain, a slack one (almost) nothing.        *)
EXTENDS Constitutive
\* principal stresses s and strains e, smallest first; crit 0: strains, 1: stresses, 2: mixed
Class(crit, s, e) ==
  LET lo == IF crit = 0 THEN e[1] ELSE s[1]
      hi == IF crit = 1 THEN s[2] ELSE e[2]
  IN IF RLt(Zero, lo) THEN 1 ELSE IF RLt(hi, Zero) THEN -1 ELSE 0
\* on the edge of a class the answer is not determined
Edge(crit, s, e, ss, es) ==
  LET lo == IF crit = 0 THEN RDiv(RAbs(e[1]), es) ELSE RDiv(RAbs(s[1]), ss)
      hi == IF crit = 1 THEN RDiv(RAbs(s[2]), ss) ELSE RDiv(RAbs(e[2]), es)
  IN RLeq(RMin(lo, hi), One)
Dyad(n) == << Sq(n[1]), Sq(n[2]), RMul(Two, RMul(n[1], n[2])) >>     \* engineering form of n (x) n
\* covariant direction of the smallest principal value of the contravariant tensor s on the metric g
MinDir(g, s) ==
  LET gi == Inv2(g)
      x == Eig2(Contract(g, s), RMul(Det2(g), Det2(s)))[2]
      m == VSub(s, VScale(x, gi))           \* m n = 0
      a == << m[3], RNeg(m[1]) >>
      b == << m[2], RNeg(m[3]) >>
      v == IF RLt(VMaxAbs(a), VMaxAbs(b)) THEN b ELSE a
  IN VScale(RDiv(One, RSqrt(VDot(v, v))), v)
\* amount of wrinkling that removes the compression across n
Gamma(s, c, n) == RNeg(RDiv(VDot(Dyad(n), s), VDot(Dyad(n), MatVec3(c, Dyad(n)))))
\* g: metric the law is isotropic in; stress, strain and tangent of the base law at the strain of c
Relax(g, s, c) ==
  LET n == MinDir(g, s) q == Gamma(s, c, n) IN
  [ s |-> VAdd(s, VScale(q, MatVec3(c, Dyad(n)))), ew |-> VScale(q, Dyad(n)), n |-> n, q |-> q ]
Relaxed(law, comp, p, a0, g0, c) ==
  Relax(IF law = "SvK" THEN a0 ELSE g0, Stress(law, comp, p, a0, g0, c), Tangent(law, comp, p, a0, g0, c))
\* derivative of the relaxed stress, by differences
RelaxedCol(law, comp, p, a0, g0, c, k) ==
  \* the wrinkle direction turns within the difference of the principal strains: the step stays well below that
  LET e == VScale(Half, VSub(c, g0))
      pe == Eig2(Contract(Inv2(g0), e), RDiv(Det2(e), Det2(g0)))
      f == RMax(RParse("1e-6"), RMin(RParse("1e-3"), RMul(RParse("1e-2"), RSub(pe[1], pe[2]))))
      h == RMul(f, IF k = 1 THEN g0[1] ELSE IF k = 2 THEN g0[2] ELSE RSqrt(RMul(g0[1], g0[2])))
      D1(x) == VScale(RDiv(One, RMul(Two, x)),
                 VSub(Relaxed(law, comp, p, a0, g0, Bump(c, k, x)).s, Relaxed(law, comp, p, a0, g0, Bump(c, k, RNeg(x))).s))
  IN VScale(Third, VSub(VScale(RI(4), D1(h)), D1(RMul(Two, h))))
RelaxedTangent(law, comp, p, a0, g0, c) ==   \* column k: derivative in direction k
  RelaxedCol(law, comp, p, a0, g0, c, 1) \o RelaxedCol(law, comp, p, a0, g0, c, 2) \o RelaxedCol(law, comp, p, a0, g0, c, 3)
=============================================================================
