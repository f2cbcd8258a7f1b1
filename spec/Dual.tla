--------------------------------- MODULE Dual ---------------------------------
(* Goal functionals of a state, their derivatives, and residual-based error    *)
(* estimates.  A problem is evaluated with one of several rules (quadratures): *)
(* the points of rule r are those of the problem At(r).                        *)
EXTENDS Shell

\* ---------------------------------------------------------------- goal densities
\* squared in-plane principal stretches and principal membrane strains, smaller first
Ascending(e) == << e[2], e[1] >>
Stretches(o, q) == Ascending(Eig2(Inv1(Metric(o), Metric(q)), InvD(Metric(o), Metric(q))))
StressMid(m, x, o, q) == LET par == MPar(m, x) a0 == Metric(o) IN
  IF Lin(m) THEN MatVec3(SvKTensor(par, a0), Eng(Membrane(o, q))) ELSE Stress(m.law, m.comp, par, a0, a0, Metric(q))
\* the vector the goal is about, for material m at place x, undeformed o and deformed q (records)
GoalVec(P, goal, m, o, q) ==
  CASE goal = "disp" -> VSub(q.x, o.x)
    [] goal = "stretch" -> Stretches(o.s, q.s)
    [] goal = "pstrain" -> LET e == Stretches(o.s, q.s) IN << RMul(Half, RSub(e[1], One)), RMul(Half, RSub(e[2], One)) >>
    [] goal = "pstress" -> Ascending(PrincipalCon(Metric(o.s), StressMid(m, o.x, o.s, q.s)))
    [] goal = "mstrain" -> Eng(Membrane(o.s, q.s))
    [] goal = "mstress" -> StressMid(m, o.x, o.s, q.s)
    [] goal = "mforce" -> Section(m, P.d, P.ng, o.x, o.s, q.s)[1]
    [] goal = "fstrain" -> Eng(Bending(o.s, q.s))
    [] goal = "fstress" -> MatVec3(SvKTensor(MPar(m, o.x), Metric(o.s)), Eng(Bending(o.s, q.s)))
    [] goal = "fmoment" -> Section(m, P.d, P.ng, o.x, o.s, q.s)[2]
Moved(q, v, h) == [x |-> VAdd(q.x, VScale(h, v.x)), s |-> Move(q.s, v.s, h)]
\* its rate along v.  Resultants take the strain rate linear over the thickness, as the tangent does.
\* rate of a determinant, and of eigenvalues (smaller first) given by trace and determinant
DDet2(b, d) == RSub(RAdd(RMul(b[1], d[2]), RMul(b[2], d[1])), RMul(Two, RMul(b[3], d[3])))
EigRate(tr, dd, dtr, ddd) ==
  LET r == RDiv(RSub(RMul(tr, dtr), RMul(Two, ddd)), RSqrt(RSub(Sq(tr), RMul(RI(4), dd))))
  IN << RMul(Half, RSub(dtr, r)), RMul(Half, RAdd(dtr, r)) >>
StretchRates(o, q, v) ==
  LET a == Metric(o) b == Metric(q) d == VScale(Two, DEps(q, v)) IN EigRate(Inv1(a, b), InvD(a, b), Inv1(a, d), RDiv(DDet2(b, d), Det2(a)))
PStressRates(m, x, o, q, v) ==
  LET a == Metric(o) t == StressMid(m, x, o, q)
      d == IF Lin(m) THEN MatVec3(SvKTensor(MPar(m, x), a), Eng(DEps(q, v))) ELSE Along(LAMBDA h : StressMid(m, x, o, Move(q, v, h)), Rel(q, v))
  IN EigRate(Contract(a, t), RMul(Det2(a), Det2(t)), Contract(a, d), RMul(Det2(a), DDet2(t, d)))
GoalRate(P, goal, m, o, q, v) ==
  IF goal = "stretch" THEN StretchRates(o.s, q.s, v.s)
  ELSE IF goal = "pstrain" THEN VScale(Half, StretchRates(o.s, q.s, v.s))
  ELSE IF goal = "pstress" THEN PStressRates(m, o.x, o.s, q.s, v.s)
  ELSE IF goal \in {"mforce", "fmoment"}
  THEN SectionRate(m, P.d, P.ng, o.x, o.s, q.s, DEps(q.s, v.s), IF P.d = 3 THEN DKap(q.s, v.s) ELSE Nil3)[IF goal = "mforce" THEN 1 ELSE 2]
  ELSE Along(LAMBDA h : GoalVec(P, goal, m, o, Moved(q, v, h)), Rel(q.s, v.s))
\* component, or squared length (9)
Scalar(vec, comp) == IF comp = 9 THEN VDot(vec, vec) ELSE vec[comp + 1]
ScalarRate(vec, rate, comp) == IF comp = 9 THEN RMul(Two, VDot(vec, rate)) ELSE rate[comp + 1]
\* <<value, size>>
Both(x, y) == << x, y >>
Taken(q, place, bnds) == CASE place = "bnd" -> q.k = "e" /\ \E i \in 1..Len(bnds) : bnds[i].patch = q.patch /\ bnds[i].side = q.side
                           [] OTHER -> q.k = "d"
\* a goal is summed over area, or over length along an edge
Weight(q, o) == RMul(q.w, IF q.k = "e" THEN Norm(o[EdgeDir(q.side)]) ELSE Meas(o))
GoalValue(P, goal, comp, place, bnds, o, c) ==
  Total(LAMBDA k : LET q == P.pts[k] IN IF ~Taken(q, place, bnds) THEN ZW
    ELSE LET vec == GoalVec(P, goal, P.mats[q.patch], o[k], c[k]) w == Weight(q, o[k].s) a == VMaxAbs(vec)
         IN Both(RMul(w, Scalar(vec, comp)), RMul(w, IF comp = 9 THEN Sq(a) ELSE a)), 1, Len(P.pts))
GoalSlope(P, goal, comp, place, bnds, o, c, v) ==
  Total(LAMBDA k : LET q == P.pts[k] IN IF ~Taken(q, place, bnds) THEN ZW
    ELSE LET m == P.mats[q.patch] vec == GoalVec(P, goal, m, o[k], c[k]) r == GoalRate(P, goal, m, o[k], c[k], v[k]) w == Weight(q, o[k].s) a == VMaxAbs(r)
         IN Both(RMul(w, ScalarRate(vec, r, comp)), RMul(w, IF comp = 9 THEN RMul(RMul(Two, VMaxAbs(vec)), a) ELSE a)), 1, Len(P.pts))
\* principal values have no derivative where they coincide
Apart(P, goal, place, bnds, o, c) ==
  \A k \in 1..Len(P.pts) : Taken(P.pts[k], place, bnds) =>
     LET e == GoalVec(P, goal, P.mats[P.pts[k].patch], o[k], c[k])
         gap == RAbs(RSub(e[1], e[2]))
     IN /\ RLt(RMul(RParse("1e-2"), RMax(RAbs(e[1]), RAbs(e[2]))), gap)
        /\ RLt(RMul(RParse("1e-4"), IF goal = "pstress" THEN VMaxAbs(P.mats[P.pts[k].patch].p0) ELSE One), gap)

\* ---------------------------------------------------------------- estimates
\* density of the estimate at a domain point: body force minus internal work (nonlinear) of z
Density(P, nl, q, o, c, z) ==
  LET f == VDot(Aff3(P.force.c, IF P.force.par THEN q.u ELSE o.x), z.x)
      m == P.mats[q.patch] sec == Section(m, P.d, P.ng, o.x, o.s, c.s)
  IN << f >> \o (IF nl THEN << RNeg(Contract(sec[1], DEps(c.s, z.s))) >> \o (IF P.bend THEN << RNeg(Contract(sec[2], DKap(c.s, z.s))) >> ELSE << >>) ELSE << >>)
Differ(zh, zl) == [x |-> VSub(zh.x, zl.x), s |-> Move(zh.s, zl.s, RI(-1))]
DomainPart(P, nl, sq, el, o, c, zl, zh) ==
  Total(LAMBDA k : LET q == P.pts[k] IN IF q.k # "d" \/ (el >= 0 /\ q.el # el) THEN ZW
    ELSE LET t == Density(P, nl, q, o[k], c[k], Differ(zh[k], zl[k])) w == RMul(q.w, Meas(o[k].s)) p == Weigh(t)
         IN IF sq THEN << RMul(w, Sq(p[1])), RMul(w, Sq(p[2])) >> ELSE VScale(w, p), 1, Len(P.pts))
EdgePart(P, o, zl, zh) == Total(LAMBDA k : LET t == EdgeWork(P, P.pts[k], o[k], Differ(zh[k], zl[k])) IN IF Len(t) = 0 THEN ZW ELSE Weigh(t), 1, Len(P.pts))
PointPart(P, zl, zh) == Total(LAMBDA k : LET t == PointWork(P, P.pts[k], Differ(zh[k], zl[k])) IN IF Len(t) = 0 THEN ZW ELSE Weigh(t), 1, Len(P.pts))

\* ---------------------------------------------------------------- eigenproblems
\* densities at a domain point of K(o)[v,w], K(c)[v,w] and mass
LinAt(P, q, o, v, w) ==
  LET m == P.mats[q.patch] r == SectionRate(m, P.d, P.ng, o.x, o.s, o.s, DEps(o.s, w.s), DKap(o.s, w.s))
  IN << Contract(r[1], DEps(o.s, v.s)), Contract(r[2], DKap(o.s, v.s)) >>
TanAt(P, q, o, c, v, w) ==
  LET m == P.mats[q.patch] r == SectionRate(m, P.d, P.ng, o.x, o.s, c.s, DEps(c.s, w.s), DKap(c.s, w.s)) n == Section(m, P.d, P.ng, o.x, o.s, c.s)
  IN << Contract(r[1], DEps(c.s, v.s)), Contract(r[2], DKap(c.s, v.s)), Contract(n[1], DDEps(v.s, w.s)), Contract(n[2], DDKap(c.s, v.s, w.s)) >>
MassAt(P, q, o, v, w) == LET m == P.mats[q.patch] IN << RMul(RMul(MRho(m, o.x), MThick(m, o.x)), VDot(v.x, w.x)) >>
Neg(t) == VScale(RI(-1), t)
GeoAt(P, q, o, c, v, w) == TanAt(P, q, o, c, v, w) \o Neg(LinAt(P, q, o, v, w))
\* A(u,dz) - lambda B(u,dz) + dlambda B(u,u), over element el (or all, -1)
EigSum(P, buck, el, ev, o, c, zl, zh, u) ==
  Total(LAMBDA k : LET q == P.pts[k] IN IF q.k # "d" \/ (el >= 0 /\ q.el # el) THEN ZW
    ELSE LET z == Differ(zh[k], zl[k])
             B(x, y) == IF buck THEN GeoAt(P, q, o[k], c[k], x, y) ELSE MassAt(P, q, o[k], x, y)
             t == LinAt(P, q, o[k], u[k], z) \o VScale(RNeg(ev[1]), B(u[k], z)) \o VScale(RSub(ev[3], ev[2]), B(u[k], u[k]))
         IN VScale(RMul(q.w, Meas(o[k].s)), Weigh(t)), 1, Len(P.pts))
NormSum(P, buck, o, c, u, z) ==
  Total(LAMBDA k : LET q == P.pts[k] IN IF q.k # "d" THEN ZW
    ELSE VScale(RMul(q.w, Meas(o[k].s)), Weigh(IF buck THEN GeoAt(P, q, o[k], c[k], u[k], z[k]) ELSE MassAt(P, q, o[k], u[k], z[k]))), 1, Len(P.pts))
=============================================================================
