--------------------------------- MODULE Shell ---------------------------------
(* The Kirchhoff-Love shell: virtual work, tangent, loads and mass of a        *)
(* problem definition, evaluated by quadrature.                                *)
(*                                                                             *)
(* A problem P is the record of spec/ShellTrace.tla: dimension, bending,       *)
(* materials per patch, loads, side conditions, quadrature points.             *)
(* A configuration or field is a sequence, over the points, of records         *)
(*     [x |-> place (3-vector), s |-> <<r,1 r,2 r,11 r,22 r,12>>].             *)
EXTENDS Constitutive, TLC

\* ---------------------------------------------------------------- sequences
\* strict: every element is evaluated once (TLC evaluates functions lazily)
RECURSIVE MapTo(_, _, _)
MapTo(F(_), i, n) == IF i > n THEN << >> ELSE << F(i) >> \o MapTo(F, i + 1, n)
RECURSIVE Gather(_, _, _)
Gather(F(_), i, n) ==
  IF i > n THEN << >>
  ELSE IF i = n THEN << F(i) >>
  ELSE LET h == (i + n) \div 2 IN Gather(F, i, h) \o Gather(F, h + 1, n)
RECURSIVE Total(_, _, _)     \* sum of vectors, by halves
Total(F(_), i, n) ==
  IF i = n THEN F(i) ELSE LET h == (i + n) \div 2 IN VAdd(Total(F, i, h), Total(F, h + 1, n))
Abs1(x) == RAbs(x)
\* value and size of a sum of terms
Weigh(t) == << VSum(t), VSum(MapTo(LAMBDA i : RAbs(t[i]), 1, Len(t))) >>

\* ---------------------------------------------------------------- materials
FAt(c, gx, gy, x) == RMul(c, RAdd(One, RAdd(RMul(gx, x[1]), RMul(gy, x[2]))))
MPar(m, x) == MapTo(LAMBDA i : FAt(m.p0[i], m.pgx[i], m.pgy[i], x), 1, Len(m.p0))
MThick(m, x) == FAt(m.thick[1], m.thick[2], m.thick[3], x)
MRho(m, x) == FAt(m.rho[1], m.rho[2], m.rho[3], x)
RuleOf(ng) == GaussRules[IF ng = 0 THEN 4 ELSE ng]
Cub(t) == RDiv(RMul(t, Sq(t)), RI(12))
Nil3 == << Zero, Zero, Zero >>
Lin(m) == m.law = "SvK"

\* membrane force and bending moment <<N, M>> of material m at place x, undeformed o, deformed q
Section(m, d, ng, x, o, q) ==
  LET par == MPar(m, x)
      t == MThick(m, x)
      a0 == Metric(o)
  IN IF Lin(m)
     THEN LET cc == SvKTensor(par, a0) IN
          << VScale(t, MatVec3(cc, Eng(Membrane(o, q)))),
             IF d = 2 THEN Nil3 ELSE VScale(Cub(t), MatVec3(cc, Eng(Bending(o, q)))) >>
     ELSE LET g == RuleOf(ng)
              \* << N contribution, M contribution >> as one vector of six
              Term(i) == LET z == IF d = 2 THEN Zero ELSE RMul(g[i][1], t)
                             s == Stress(m.law, m.comp, par, a0, MetricAt(o, z), MetricAt(q, z))
                             w == RMul(g[i][2], t)
                         IN VScale(w, s) \o VScale(RMul(w, z), s)
              nm == Total(Term, 1, Len(g))
          IN << SubSeq(nm, 1, 3), SubSeq(nm, 4, 6) >>

\* stress rate for the strain rate e (tensor components) at metrics g0, c
StressRate(m, par, a0, g0, c, e) ==
  LET big == VMaxAbs(e)
      h == RDiv(RMul(RParse("1e-4"), RMax(g0[1], g0[2])), big)
      S(s) == Stress(m.law, m.comp, par, a0, g0, VAdd(c, VScale(RMul(Two, s), e)))
      D1(s) == VScale(RDiv(One, RMul(Two, s)), VSub(S(s), S(RNeg(s))))
  IN IF RLt(Zero, big) THEN VScale(Third, VSub(VScale(RI(4), D1(h)), D1(RMul(Two, h)))) ELSE Nil3

\* change of <<N, M>> for membrane strain rate e and bending strain rate k;
\* the strain rate at height z is e + z k (linear over the thickness)
SectionRate(m, d, ng, x, o, q, e, k) ==
  LET par == MPar(m, x)
      t == MThick(m, x)
      a0 == Metric(o)
  IN IF Lin(m)
     THEN LET cc == SvKTensor(par, a0) IN
          << VScale(t, MatVec3(cc, Eng(e))), IF d = 2 THEN Nil3 ELSE VScale(Cub(t), MatVec3(cc, Eng(k))) >>
     ELSE LET g == RuleOf(ng)
              Term(i) == LET z == IF d = 2 THEN Zero ELSE RMul(g[i][1], t)
                             s == StressRate(m, par, a0, MetricAt(o, z), MetricAt(q, z), VAdd(e, VScale(z, k)))
                             w == RMul(g[i][2], t)
                         IN VScale(w, s) \o VScale(RMul(w, z), s)
              nm == Total(Term, 1, Len(g))
          IN << SubSeq(nm, 1, 3), SubSeq(nm, 4, 6) >>

\* ---------------------------------------------------------------- variations
\* p: surface vectors of the configuration, q: of the variation
DEps(p, q) == << VDot(p[1], q[1]), VDot(p[2], q[2]), RMul(Half, RAdd(VDot(p[1], q[2]), VDot(p[2], q[1]))) >>
DNormal(p, q) ==
  LET n == Normal(p)
      m == VScale(RDiv(One, Meas(p)), VAdd(Cross(q[1], p[2]), Cross(p[1], q[2])))
  IN VSub(m, VScale(VDot(m, n), n))
DCurv(p, q) == LET n == Normal(p) dn == DNormal(p, q) IN
  << RAdd(VDot(q[3], n), VDot(p[3], dn)), RAdd(VDot(q[4], n), VDot(p[4], dn)), RAdd(VDot(q[5], n), VDot(p[5], dn)) >>
DKap(p, q) == VScale(RI(-1), DCurv(p, q))
DDEps(q, w) == DEps(q, w)
\* second variation of the bending strain, along w, of the variation q
Move(p, w, s) == << VAdd(p[1], VScale(s, w[1])), VAdd(p[2], VScale(s, w[2])), VAdd(p[3], VScale(s, w[3])),
                    VAdd(p[4], VScale(s, w[4])), VAdd(p[5], VScale(s, w[5])) >>
Along(F(_), size) ==
  LET h == RDiv(RParse("2e-4"), RAdd(RParse("1e-30"), size))
      D1(s) == VScale(RDiv(One, RMul(Two, s)), VSub(F(s), F(RNeg(s))))
  IN VScale(Third, VSub(VScale(RI(4), D1(h)), D1(RMul(Two, h))))
Rel(p, w) == RDiv(RMax(VMaxAbs(w[1]), VMaxAbs(w[2])), RMin(Norm(p[1]), Norm(p[2])))
DDKap(p, q, w) == Along(LAMBDA s : DKap(Move(p, w, s), q), Rel(p, w))

\* ---------------------------------------------------------------- fields
\* affine vector field with rows <<c0, cx, cy, cz>> at the arguments y (2 or 3 of them)
Arg(y, i) == IF i <= Len(y) THEN y[i] ELSE Zero
AffRow(r, y) == RAdd(RAdd(r[1], RMul(r[2], Arg(y, 1))), RAdd(RMul(r[3], Arg(y, 2)), RMul(r[4], Arg(y, 3))))
Aff3(c, y) == << AffRow(c[1], y), AffRow(c[2], y), IF Len(c) > 2 THEN AffRow(c[3], y) ELSE Zero >>
\* which of the two tangents runs along side 1..4 (west, east, south, north)
EdgeDir(side) == IF side <= 2 THEN 2 ELSE 1

\* ---------------------------------------------------------------- work at one point
\* P: problem; q: point record; o: undeformed record; c: current record; sec: <<N, M>> at the point; v: variation
\* Each is a sequence of work terms.
Inner(P, q, o, c, sec, v) ==
  LET w == RMul(q.w, Meas(o.s)) IN
  IF q.k # "d" THEN << >>
  ELSE << RMul(w, Contract(sec[1], DEps(c.s, v.s))) >> \o
       (IF P.bend THEN << RMul(w, Contract(sec[2], DKap(c.s, v.s))) >> ELSE << >>)
BodyWork(P, q, o, v) ==
  IF q.k # "d" THEN << >>
  ELSE << RMul(RMul(q.w, Meas(o.s)), VDot(Aff3(P.force.c, IF P.force.par THEN q.u ELSE o.x), v.x)) >>
PressWork(P, q, o, c, v) ==
  IF q.k # "d" \/ ~P.press.on \/ P.d # 3 THEN << >>
  ELSE << RMul(RMul(q.w, Meas(o.s)), RMul(AffRow(P.press.c[1], o.x), VDot(Normal(c.s), v.x))) >>
Spring(P, o, u) == LET k == Aff3(P.found.c, o.x) IN << RMul(k[1], u[1]), RMul(k[2], u[2]), RMul(k[3], u[3]) >>
FoundWork(P, q, o, c, v) ==
  IF q.k # "d" \/ ~P.found.on \/ P.d # 3 THEN << >>
  ELSE << RNeg(RMul(RMul(q.w, Meas(o.s)), VDot(Spring(P, o, VSub(c.x, o.x)), v.x))) >>
EdgeWork(P, q, o, v) ==
  IF q.k # "e" THEN << >>
  ELSE LET On(i) == P.sides[i].type = "N" /\ P.sides[i].patch = q.patch /\ P.sides[i].side = q.side
           T(i) == IF On(i) THEN RMul(RMul(q.w, Norm(o.s[EdgeDir(q.side)])), VDot(Aff3(P.sides[i].c, o.x), v.x)) ELSE Zero
       IN MapTo(T, 1, Len(P.sides))
PointWork(P, q, v) == IF q.k # "p" THEN << >> ELSE << VDot(P.pl[q.load].f, v.x) >>
Outer(P, q, o, c, v) ==
  BodyWork(P, q, o, v) \o PressWork(P, q, o, c, v) \o FoundWork(P, q, o, c, v) \o EdgeWork(P, q, o, v) \o PointWork(P, q, v)

\* ---------------------------------------------------------------- the forms
\* forces and moments at every point of configuration c
Sections(P, ori, c) ==
  Gather(LAMBDA k : IF P.pts[k].k = "d" THEN Section(P.mats[P.pts[k].patch], P.d, P.ng, ori[k].x, ori[k].s, c[k].s) ELSE << >>, 1, Len(P.pts))
Add2(x, y) == VAdd(x, y)
ZW == << Zero, Zero >>
\* <<work, size>> of the residual (external minus internal) with variation v
ResidualWork(P, ori, c, secs, v) ==
  LET T(k) == LET q == P.pts[k]
                  i == Inner(P, q, ori[k], c[k], secs[k], v[k])
                  all == VScale(RI(-1), i) \o Outer(P, q, ori[k], c[k], v[k])
              IN IF Len(all) = 0 THEN ZW ELSE Weigh(all)
  IN Total(T, 1, Len(P.pts))
\* without internal forces
LoadWork(P, ori, c, v) ==
  LET T(k) == LET all == Outer(P, P.pts[k], ori[k], c[k], v[k]) IN IF Len(all) = 0 THEN ZW ELSE Weigh(all)
  IN Total(T, 1, Len(P.pts))

\* one load on its own: work of the pressure or foundation with coefficients c in configuration cf
PressOnly(P, c, ori, cf, v) ==
  LET Q == [P EXCEPT !.press = [on |-> TRUE, c |-> c]]
      T(k) == LET t == PressWork(Q, P.pts[k], ori[k], cf[k], v[k]) IN IF Len(t) = 0 THEN ZW ELSE Weigh(t)
  IN Total(T, 1, Len(P.pts))
FoundOnly(P, c, ori, cf, v) ==
  LET Q == [P EXCEPT !.found = [on |-> TRUE, c |-> c]]
      T(k) == LET t == FoundWork(Q, P.pts[k], ori[k], cf[k], v[k]) IN IF Len(t) = 0 THEN ZW ELSE Weigh(t)
  IN Total(T, 1, Len(P.pts))
\* and its contribution to v' K w
PressStiff(P, c, ori, cf, v, w) ==
  LET T(k) == IF P.pts[k].k # "d" \/ P.d # 3 THEN ZW
              ELSE VScale(RMul(P.pts[k].w, Meas(ori[k].s)), Weigh(<< RNeg(RMul(AffRow(c[1], ori[k].x), VDot(DNormal(cf[k].s, w[k].s), v[k].x))) >>))
  IN Total(T, 1, Len(P.pts))
FoundStiff(P, c, ori, v, w) ==
  LET Q == [P EXCEPT !.found = [on |-> TRUE, c |-> c]]
      T(k) == IF P.pts[k].k # "d" \/ P.d # 3 THEN ZW
              ELSE VScale(RMul(P.pts[k].w, Meas(ori[k].s)), Weigh(<< VDot(Spring(Q, ori[k], w[k].x), v[k].x) >>))
  IN Total(T, 1, Len(P.pts))

\* rates of force and moment at every point along w, with the strain rates
Rates(P, ori, c, w) ==
  Gather(LAMBDA k : IF P.pts[k].k # "d" THEN << >>
           ELSE LET e == DEps(c[k].s, w[k].s)
                    kk == IF P.bend THEN DKap(c[k].s, w[k].s) ELSE Nil3
                IN SectionRate(P.mats[P.pts[k].patch], P.d, P.ng, ori[k].x, ori[k].s, c[k].s, e, kk), 1, Len(P.pts))
\* <<value, size>> of v' K w
TangentForm(P, ori, c, secs, rates, v, w) ==
  LET T(k) ==
        LET q == P.pts[k] IN
        IF q.k # "d" THEN ZW
        ELSE LET o == ori[k].s
                 p == c[k].s
                 wt == RMul(q.w, Meas(o))
                 t == << Contract(rates[k][1], DEps(p, v[k].s)), Contract(secs[k][1], DDEps(v[k].s, w[k].s)) >>
                      \o (IF P.bend THEN << Contract(rates[k][2], DKap(p, v[k].s)), Contract(secs[k][2], DDKap(p, v[k].s, w[k].s)) >> ELSE << >>)
                      \o (IF P.press.on /\ P.d = 3 THEN << RNeg(RMul(AffRow(P.press.c[1], ori[k].x), VDot(DNormal(p, w[k].s), v[k].x))) >> ELSE << >>)
                      \o (IF P.found.on /\ P.d = 3 THEN << VDot(Spring(P, ori[k], w[k].x), v[k].x) >> ELSE << >>)
             IN VScale(wt, Weigh(t))
  IN Total(T, 1, Len(P.pts))
\* linear stiffness: undeformed state, dead normal pressure, with foundation
LinearForm(P, ori, rates, v, w) ==
  LET T(k) ==
        LET q == P.pts[k] IN
        IF q.k # "d" THEN ZW
        ELSE LET p == ori[k].s
                 t == << Contract(rates[k][1], DEps(p, v[k].s)) >>
                      \o (IF P.bend THEN << Contract(rates[k][2], DKap(p, v[k].s)) >> ELSE << >>)
                      \o (IF P.found.on /\ P.d = 3 THEN << VDot(Spring(P, ori[k], w[k].x), v[k].x) >> ELSE << >>)
             IN VScale(RMul(q.w, Meas(p)), Weigh(t))
  IN Total(T, 1, Len(P.pts))
\* mass form
MassForm(P, ori, v, w) ==
  LET T(k) == LET q == P.pts[k] m == P.mats[q.patch] IN
        IF q.k = "m" THEN VScale(q.w, Weigh(<< VDot(v[k].x, w[k].x) >>))      \* point mass
        ELSE IF q.k # "d" THEN ZW
        ELSE VScale(RMul(RMul(q.w, Meas(ori[k].s)), RMul(MRho(m, ori[k].x), MThick(m, ori[k].x))), Weigh(<< VDot(v[k].x, w[k].x) >>))
  IN Total(T, 1, Len(P.pts))
=============================================================================
