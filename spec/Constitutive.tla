----------------------------- MODULE Constitutive -----------------------------
(* The material laws offered by the library, as strain energies of the        *)
(* invariants of the deformation tensor                                       *)
(*     I = tr(C_inplane),  D = det(C_inplane),  c = C33,                      *)
(* reduced to plane stress.  The stress is S = 2 dPsi/dC; the tangent its     *)
(* derivative with respect to the strain.  A law is the record                *)
(*     [law |-> "SvK"|"NH"|"NHx"|"MR"|"OG", comp |-> BOOLEAN]                  *)
(* with parameters p = <<E, nu, ...>>.                                        *)
EXTENDS Gauss

Mu(p)     == RDiv(p[1], RMul(Two, RAdd(One, p[2])))
Bulk(p)   == RDiv(p[1], RSub(RI(3), RMul(RI(6), p[2])))
Lambda(p) == RDiv(RMul(p[1], p[2]), RMul(RAdd(One, p[2]), RSub(One, RMul(Two, p[2]))))
C2(p)     == RDiv(Mu(p), RAdd(One, p[3]))        \* Mooney-Rivlin: c1 = ratio*c2, c1+c2 = mu
C1(p)     == RMul(p[3], C2(p))
NOgden(p) == (Len(p) - 2) \div 2
OgMu(p, i) == p[1 + 2*i]
OgAl(p, i) == p[2 + 2*i]

Third == RQ(1, 3)
TwoThird == RQ(2, 3)

\* ------------------------------------------------------------ partial derivatives
\* A "gradient" is <<dPsi/dI, dPsi/dD, dPsi/dc>> at independent (I, D, c).
VolGrad(k, dd, c) ==   \* K/4 (J^2 - 1 - 2 ln J), J^2 = D c
  << Zero, RMul(RMul(RQ(1,4), k), RSub(c, RDiv(One, dd))), RMul(RMul(RQ(1,4), k), RSub(dd, RDiv(One, c))) >>

\* k (J^{-2/3} (I + c)) / 2
Iso1(k, i, dd, c) ==
  LET m == RPow(RMul(dd, c), RNeg(Third))
      i1 == RAdd(i, c)
      h == RMul(Half, k)
  IN << RMul(h, m), RNeg(RDiv(RMul(RMul(h, RMul(Third, m)), i1), dd)),
        RMul(h, RSub(m, RDiv(RMul(RMul(Third, m), i1), c))) >>
\* k (J^{-4/3} (D + c I)) / 2
Iso2(k, i, dd, c) ==
  LET q == RPow(RMul(dd, c), RNeg(TwoThird))
      i2 == RAdd(dd, RMul(c, i))
      h == RMul(Half, k)
  IN << RMul(h, RMul(q, c)), RMul(h, RSub(q, RDiv(RMul(RMul(TwoThird, q), i2), dd))),
        RMul(h, RSub(RMul(q, i), RDiv(RMul(RMul(TwoThird, q), i2), c))) >>
\* unsplit versions
Lin1(k) == << RMul(Half, k), Zero, RMul(Half, k) >>
Lin2(k, i, dd, c) == VScale(RMul(Half, k), << c, One, i >>)

\* Ogden term  mu/alpha (x1^{a/2} + x2^{a/2}) of the squared stretches, as gradient in (I, D);
\* divided differences with their limit for (nearly) equal stretches.
OgdenPlane(mu, al, i, dd) ==
  LET x == Eig2(i, dd)
      h == RMul(Half, al)
      F1(t) == RMul(RMul(Half, mu), RPow(t, RSub(h, One)))                      \* f'
      F2(t) == RMul(RMul(RMul(Half, mu), RSub(h, One)), RPow(t, RSub(h, Two)))  \* f''
      m == RMul(Half, RAdd(x[1], x[2]))
      gap == RSub(x[1], x[2])
  IN IF RLt(gap, RMul(RParse("1e-4"), m))
     THEN << RAdd(F1(m), RMul(m, F2(m))), RNeg(F2(m)) >>
     ELSE << RDiv(RSub(RMul(x[1], F1(x[1])), RMul(x[2], F1(x[2]))), gap),
             RNeg(RDiv(RSub(F1(x[1]), F1(x[2])), gap)) >>
OgdenSumPlane(mu, al, i, dd) == \* x1^{a/2}+x2^{a/2}
  LET x == Eig2(i, dd) h == RMul(Half, al) IN RAdd(RPow(x[1], h), RPow(x[2], h))
\* compressible Ogden term mu/alpha J^{-alpha/3} (sum lambda^alpha)
OgdenIso(mu, al, i, dd, c) ==
  LET j == RPow(RMul(dd, c), RNeg(RDiv(al, RI(6))))
      h == RMul(Half, al)
      g == OgdenPlane(mu, al, i, dd)
      sum == RMul(RDiv(mu, al), RAdd(OgdenSumPlane(mu, al, i, dd), RPow(c, h)))
      dj == RMul(RNeg(RDiv(al, RI(6))), RMul(j, sum))
  IN << RMul(j, g[1]), RAdd(RMul(j, g[2]), RDiv(dj, dd)),
        RAdd(RMul(j, RMul(RMul(Half, mu), RPow(c, RSub(h, One)))), RDiv(dj, c)) >>
OgdenRaw(mu, al, i, dd, c) ==
  LET g == OgdenPlane(mu, al, i, dd) IN
  << g[1], g[2], RMul(RMul(Half, mu), RPow(c, RSub(RMul(Half, al), One))) >>

RECURSIVE SumOg(_, _, _, _, _, _)
SumOg(comp, p, k, i, dd, c) ==
  IF k = 0 THEN << Zero, Zero, Zero >>
  ELSE VAdd(SumOg(comp, p, k - 1, i, dd, c),
            IF comp THEN OgdenIso(OgMu(p, k), OgAl(p, k), i, dd, c) ELSE OgdenRaw(OgMu(p, k), OgAl(p, k), i, dd, c))

\* gradient of the full energy at independent I, D, c
Grad(law, comp, p, i, dd, c) ==
  CASE law = "NH" /\ ~comp -> Lin1(Mu(p))
    [] law = "MR" /\ ~comp -> VAdd(Lin1(C1(p)), Lin2(C2(p), i, dd, c))
    [] law = "OG" /\ ~comp -> SumOg(FALSE, p, NOgden(p), i, dd, c)
    [] law = "NH" /\ comp  -> VAdd(Iso1(Mu(p), i, dd, c), VolGrad(Bulk(p), dd, c))
    [] law = "MR" /\ comp  -> VAdd(VAdd(Iso1(C1(p), i, dd, c), Iso2(C2(p), i, dd, c)), VolGrad(Bulk(p), dd, c))
    [] law = "OG" /\ comp  -> VAdd(SumOg(TRUE, p, NOgden(p), i, dd, c), VolGrad(Bulk(p), dd, c))
    [] law = "NHx" /\ comp -> VAdd(VAdd(Lin1(Mu(p)), VScale(RMul(Half, Mu(p)), << Zero, RNeg(RDiv(One, dd)), RNeg(RDiv(One, c)) >>)),
                                   VolGrad(Lambda(p), dd, c))

\* ------------------------------------------------------------ thickness direction
\* C33 with zero normal stress: dPsi/dc = 0, by a safeguarded Newton iteration in ln c.
RECURSIVE SolveC(_, _, _, _, _, _)
SolveC(law, p, i, dd, c, n) ==
  LET h  == RParse("1e-6")
      F(t) == RMul(t, Grad(law, TRUE, p, i, dd, t)[3])
      f  == F(c)
      df == RDiv(RSub(F(RMul(c, RAdd(One, h))), F(RMul(c, RSub(One, h)))), RMul(Two, h))
      st == RMax(RI(-1), RMin(One, RNeg(RDiv(f, df))))
      c2 == RMul(c, RExp(st))
  IN IF n = 0 \/ RLt(RAbs(st), RParse("1e-15")) THEN c ELSE SolveC(law, p, i, dd, c2, n - 1)
C33(law, comp, p, i, dd) ==
  IF ~comp THEN RDiv(One, dd)
  ELSE IF law = "NHx" THEN RDiv(RAdd(RMul(Two, Mu(p)), Lambda(p)), RAdd(RMul(Two, Mu(p)), RMul(Lambda(p), dd)))
  ELSE SolveC(law, p, i, dd, RPow(dd, RNeg(RMul(Half, Half))), 40)

\* ------------------------------------------------------------ stress and tangent
\* isotropic tensor k G G + mu (G G + G G), G the inverse of the metric a
IsoTensor(k, mu, a) ==
  LET ai == Inv2(a)
      G(x, y) == IF x = 1 /\ y = 1 THEN ai[1] ELSE IF x = 2 /\ y = 2 THEN ai[2] ELSE ai[3]
      C(x, y, u, v) == RAdd(RMul(k, RMul(G(x, y), G(u, v))), RMul(mu, RAdd(RMul(G(x, u), G(y, v)), RMul(G(x, v), G(y, u)))))
  IN << C(1,1,1,1), C(1,1,2,2), C(1,1,1,2),
        C(1,1,2,2), C(2,2,2,2), C(2,2,1,2),
        C(1,1,1,2), C(2,2,1,2), C(1,2,1,2) >>
\* Plane-stress elasticity of the linear law on the metric a (contravariant components).
SvKTensor(p, a) == IsoTensor(RDiv(RMul(Two, RMul(Lambda(p), Mu(p))), RAdd(Lambda(p), RMul(Two, Mu(p)))), Mu(p), a)
MatVec3(m, v) == << RAdd(RAdd(RMul(m[1], v[1]), RMul(m[2], v[2])), RMul(m[3], v[3])),
                    RAdd(RAdd(RMul(m[4], v[1]), RMul(m[5], v[2])), RMul(m[6], v[3])),
                    RAdd(RAdd(RMul(m[7], v[1]), RMul(m[8], v[2])), RMul(m[9], v[3])) >>
\* hyperelastic stress for the in-plane metric g0 (undeformed) and c (deformed)
HyperStress(law, comp, p, g0, c) ==
  LET i == Inv1(g0, c)
      dd == InvD(g0, c)
      c33 == C33(law, comp, p, i, dd)
      g == Grad(law, comp, p, i, dd, c33)
      \* incompressible: c = 1/D is substituted, total derivative with respect to D
      gd == IF comp THEN g[2] ELSE RSub(g[2], RDiv(g[3], Sq(dd)))
  IN VAdd(VScale(RMul(Two, g[1]), Inv2(g0)), VScale(RMul(RMul(Two, gd), dd), Inv2(c)))
\* a0: mid-surface metric, g0/c: metrics at the height asked for
Stress(law, comp, p, a0, g0, c) ==
  IF law = "SvK" THEN MatVec3(SvKTensor(p, a0), Eng(VScale(Half, VSub(c, g0))))
  ELSE HyperStress(law, comp, p, g0, c)

\* derivative of the stress with respect to Voigt strain component k (engineering shear),
\* by central differences of the law itself
Bump(c, k, h) == IF k = 3 THEN << c[1], c[2], RAdd(c[3], h) >>      \* dE12 = h/2, so gamma = h
                 ELSE [c EXCEPT ![k] = RAdd(@, RMul(Two, h))]
TangentCol(law, comp, p, a0, g0, c, k) ==
  LET s == RMul(RParse("1e-4"), IF k = 1 THEN g0[1] ELSE IF k = 2 THEN g0[2] ELSE RSqrt(RMul(g0[1], g0[2])))
      D1(h) == VScale(RDiv(One, RMul(Two, h)),
                 VSub(Stress(law, comp, p, a0, g0, Bump(c, k, h)), Stress(law, comp, p, a0, g0, Bump(c, k, RNeg(h)))))
  IN VScale(Third, VSub(VScale(RI(4), D1(s)), D1(RMul(Two, s))))   \* Richardson
Tangent(law, comp, p, a0, g0, c) ==
  IF law = "SvK" THEN SvKTensor(p, a0)
  ELSE TangentCol(law, comp, p, a0, g0, c, 1) \o TangentCol(law, comp, p, a0, g0, c, 2) \o TangentCol(law, comp, p, a0, g0, c, 3)

\* plane-stress / incompressible isotropic small-strain tensor every law must reduce to
RECURSIVE OgShear(_, _)
OgShear(p, k) == IF k = 0 THEN Zero ELSE RAdd(OgShear(p, k - 1), RMul(Half, RMul(OgMu(p, k), OgAl(p, k))))
Shear(law, p) == IF law = "OG" THEN OgShear(p, NOgden(p)) ELSE Mu(p)
SmallStrain(law, comp, p, g0) ==
  LET mu == Shear(law, p)
      lam == IF law = "OG" THEN RSub(Bulk(p), RMul(TwoThird, mu)) ELSE Lambda(p)
  IN IF law = "SvK" \/ comp THEN IsoTensor(RDiv(RMul(Two, RMul(lam, mu)), RAdd(lam, RMul(Two, mu))), mu, g0)
     ELSE IsoTensor(RMul(Two, mu), mu, g0)
=============================================================================
