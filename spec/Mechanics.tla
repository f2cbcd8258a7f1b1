------------------------------- MODULE Mechanics -------------------------------
(* Kinematics of a Kirchhoff-Love surface at one point, in real arithmetic.  *)
(* A symmetric 2x2 tensor is the sequence <<x11, x22, x12>>.                  *)
(* A surface point is a sequence of five 3-vectors                            *)
(*      <<r,1 , r,2 , r,11 , r,22 , r,12>>                                    *)
(* (for planar problems the third components are zero).                       *)
EXTENDS RealArith

Zero == RI(0)
One  == RI(1)
Two  == RI(2)
Half == RQ(1, 2)
Sq(x) == RMul(x, x)

Cross(a, b) == << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                  RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                  RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
Norm(a) == RSqrt(VDot(a, a))
Unit(a) == VScale(RDiv(One, Norm(a)), a)

\* ---- symmetric 2x2 tensors
Det2(s) == RSub(RMul(s[1], s[2]), RMul(s[3], s[3]))
Inv2(s) == VScale(RDiv(One, Det2(s)), << s[2], s[1], RNeg(s[3]) >>)
\* B X B for symmetric B, X
Sandwich(b, x) ==
  LET p11 == RAdd(RMul(b[1], x[1]), RMul(b[3], x[3]))
      p12 == RAdd(RMul(b[1], x[3]), RMul(b[3], x[2]))
      p21 == RAdd(RMul(b[3], x[1]), RMul(b[2], x[3]))
      p22 == RAdd(RMul(b[3], x[3]), RMul(b[2], x[2]))
  IN << RAdd(RMul(p11, b[1]), RMul(p12, b[3])),
        RAdd(RMul(p21, b[3]), RMul(p22, b[2])),
        RAdd(RMul(p11, b[3]), RMul(p12, b[2])) >>
\* double contraction x^{ij} y_{ij}
Contract(x, y) == RAdd(RAdd(RMul(x[1], y[1]), RMul(x[2], y[2])), RMul(Two, RMul(x[3], y[3])))

\* ---- surface
Metric(p)  == << VDot(p[1], p[1]), VDot(p[2], p[2]), VDot(p[1], p[2]) >>
Normal(p)  == Unit(Cross(p[1], p[2]))
Meas(p)    == Norm(Cross(p[1], p[2]))
Curv(p)    == LET n == Normal(p) IN << VDot(p[3], n), VDot(p[4], n), VDot(p[5], n) >>
\* metric of the surface at distance z from the mid-surface (z # 0 only for shells)
MetricAt(p, z) ==
  LET a == Metric(p) b == Curv(p) IN
  VAdd(VSub(a, VScale(RMul(Two, z), b)), VScale(Sq(z), Sandwich(b, Inv2(a))))
\* covariant base vectors at distance z
BaseAt(p, z) ==
  LET a == Metric(p) b == Curv(p) ai == Inv2(a)
      m11 == RAdd(RMul(b[1], ai[1]), RMul(b[3], ai[3]))   \* b_1^1
      m12 == RAdd(RMul(b[1], ai[3]), RMul(b[3], ai[2]))   \* b_1^2
      m21 == RAdd(RMul(b[3], ai[1]), RMul(b[2], ai[3]))
      m22 == RAdd(RMul(b[3], ai[3]), RMul(b[2], ai[2]))
  IN << VSub(p[1], VScale(z, VAdd(VScale(m11, p[1]), VScale(m12, p[2])))),
        VSub(p[2], VScale(z, VAdd(VScale(m21, p[1]), VScale(m22, p[2])))) >>
Membrane(o, d) == VScale(Half, VSub(Metric(d), Metric(o)))
Bending(o, d)  == VSub(Curv(o), Curv(d))
\* engineering (Voigt) form of a strain tensor
Eng(e) == << e[1], e[2], RMul(Two, e[3]) >>

\* ---- invariants of the in-plane deformation tensor c (covariant, in the base of g0)
Inv1(g0, c) == Contract(Inv2(g0), c)
InvD(g0, c) == RDiv(Det2(c), Det2(g0))
\* squared principal in-plane stretches, larger one first
Eig2(i1, dd) ==
  LET h == RMul(Half, i1)
      q == RSqrt(RMax(Zero, RSub(Sq(h), dd)))
  IN << RAdd(h, q), RSub(h, q) >>

\* ---- contravariant stress s on base g0 : principal values (largest first) of s^{ij} g_i (x) g_j
PrincipalCon(g0, s) == Eig2(Contract(g0, s), RMul(Det2(g0), Det2(s)))

\* ---- tensors in space
\* contravariant base of the plane spanned by b = <<b1, b2>>
ConBase(b) ==
  LET gi == Inv2(<< VDot(b[1], b[1]), VDot(b[2], b[2]), VDot(b[1], b[2]) >>)
  IN << VAdd(VScale(gi[1], b[1]), VScale(gi[3], b[2])), VAdd(VScale(gi[3], b[1]), VScale(gi[2], b[2])) >>
\* (t^{ij} b_i (x) b_j) v
ApplyOn(t, b, v) ==
  LET x == VDot(b[1], v) y == VDot(b[2], v) IN
  VAdd(VScale(RAdd(RMul(t[1], x), RMul(t[3], y)), b[1]), VScale(RAdd(RMul(t[3], x), RMul(t[2], y)), b[2]))
\* trace and determinant (in the plane) of t^{ij} b_i (x) b_j
TraceDet(t, b) ==
  LET g == << VDot(b[1], b[1]), VDot(b[2], b[2]), VDot(b[1], b[2]) >> IN
  << Contract(t, g), RMul(Det2(t), Det2(g)) >>
=============================================================================
