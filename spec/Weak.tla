--------------------------------- MODULE Weak ---------------------------------
(* Weak supports and weak patch coupling as penalty energies                   *)
(*        W = sum over edge points of  weight * alpha/2 * |gap|^2              *)
(* The contribution to a system is minus the gradient (vector) and the Hessian *)
(* (matrix) of W, with the factor alpha held fixed.                            *)
EXTENDS Shell

\* in-surface unit vector normal to the edge and pointing out of the patch
Outward(p, side) ==
  LET t == Unit(p[EdgeDir(side)])
      a == p[3 - EdgeDir(side)]
      r == Unit(VSub(a, VScale(VDot(a, t), t)))
  IN IF side \in {1, 3} THEN VScale(RI(-1), r) ELSE r
EdgeMeas(s, side) == Norm(s[EdgeDir(side)])

\* ---------------------------------------------------------------- coupling
\* what an interface is assigned to, and what that means
CoupledC0(P, i) == P.ifc[i] \in {"weak0", "both"} \/ (P.ifc[i] = "default" /\ P.init /\ P.ifcdef = 0)
CoupledC1(P, i) == P.ifc[i] \in {"weak1", "both"} \/ (P.ifc[i] = "default" /\ P.init /\ P.ifcdef = 1)

\* ---------------------------------------------------------------- factor
\* stiffness in the frame e1 along the first tangent; largest coefficient
Voigt(m) == << << Sq(m[1][1]), Sq(m[1][2]), RMul(Two, RMul(m[1][1], m[1][2])) >>,
               << Sq(m[2][1]), Sq(m[2][2]), RMul(Two, RMul(m[2][1], m[2][2])) >>,
               << RMul(m[1][1], m[2][1]), RMul(m[1][2], m[2][2]), RAdd(RMul(m[1][1], m[2][2]), RMul(m[1][2], m[2][1])) >> >>
Frame2(p) ==
  LET e1 == Unit(p[1])
      e2 == Unit(VSub(p[2], VScale(VDot(p[2], e1), e1)))
  IN << << VDot(e1, p[1]), VDot(e1, p[2]) >>, << VDot(e2, p[1]), VDot(e2, p[2]) >> >>
Largest(o, cols) ==      \* cols: columns of the stiffness
  LET f == Frame2(o)
      r == Voigt(f)
      l == Voigt(<< << f[1][1], f[2][1] >>, << f[1][2], f[2][2] >> >>)
      k(i, j) == RAdd(RAdd(RMul(l[i][1], cols[j][1]), RMul(l[i][2], cols[j][2])), RMul(l[i][3], cols[j][3]))
      e(i, j) == RAdd(RAdd(RMul(k(i, 1), r[1][j]), RMul(k(i, 2), r[2][j])), RMul(k(i, 3), r[3][j]))
      M(i) == RMax(e(i, 1), RMax(e(i, 2), e(i, 3)))
  IN RMax(M(1), RMax(M(2), M(3)))
Unit3(j) == << << One, Zero, Zero >>, << Zero, One, Zero >>, << Zero, Zero, Half >> >>[j]
Stiff(P, q, o, c, which) ==
  LET m == P.mats[q.patch]
      col(j) == IF which = 1 THEN SectionRate(m, P.d, P.ng, o.x, o.s, c.s, Unit3(j), Nil3)[1]
                ELSE SectionRate(m, P.d, P.ng, o.x, o.s, c.s, Nil3, Unit3(j))[2]
  IN Largest(o.s, << col(1), col(2), col(3) >>)
\* length of the edge element a point lies on (for an interface: mean of both sides)
SameEl(a, b) == a.k = b.k /\ a.cond = b.cond /\ a.el = b.el
Length(P, ori, k) ==
  Total(LAMBDA i : IF SameEl(P.pts[i], P.pts[k]) THEN << RMul(P.pts[i].w, EdgeMeas(ori[i].s, P.pts[i].side)) >> ELSE << Zero >>, 1, Len(P.pts))[1]
Factor(P, ori, c, k, which, pen) ==
  LET q == P.pts[k]
      h == IF q.k = "l" THEN RMul(Half, RAdd(Length(P, ori, k), Length(P, ori, k + 1))) ELSE Length(P, ori, k)
  IN RDiv(RMul(pen, Stiff(P, q, ori[k], c[k], which)), h)

\* ---------------------------------------------------------------- gaps
Cut(d, x) == IF d = 2 THEN << x[1], x[2] >> ELSE x
Root2 == RSqrt(Two)
\* at(i) is the current record (place and surface vectors) of point i
Gap(P, ori, k, what, at(_)) ==
  LET q == P.pts[k] o == ori[k] IN
  CASE what = "WD" -> Cut(P.d, VSub(VSub(at(k).x, o.x), Aff3(P.sides[q.cond].c, o.x)))
    [] what = "WC" -> << VDot(VSub(Normal(at(k).s), Normal(o.s)), Outward(o.s, q.side)) >>
    [] what = "C0" -> Cut(P.d, VSub(VSub(at(k).x, o.x), VSub(at(k + 1).x, ori[k + 1].x)))
    [] what = "C1" ->
         LET r == P.pts[k + 1]
             n(s) == Normal(s)
             G(a, b) == << RMul(Root2, VDot(n(a), n(b))), VDot(Outward(a, q.side), n(b)), VDot(Outward(b, r.side), n(a)) >>
         IN VSub(G(at(k).s, at(k + 1).s), G(o.s, ori[k + 1].s))
\* the penalties acting at point k
Acts(P, k) ==
  LET q == P.pts[k] IN
  CASE q.k = "b" -> IF P.sides[q.cond].type = "WD" THEN << "WD" >> ELSE IF P.sides[q.cond].type = "WC" /\ P.d = 3 THEN << "WC" >> ELSE << >>
    [] q.k = "l" -> (IF CoupledC0(P, q.cond) THEN << "C0" >> ELSE << >>) \o (IF CoupledC1(P, q.cond) /\ P.d = 3 THEN << "C1" >> ELSE << >>)
    [] q.k = "r" -> << >>
Pen(P, what) == CASE what = "WD" -> P.pen[1] [] what = "WC" -> P.pen[2] [] OTHER -> P.pen[3]
Which(what) == IF what \in {"WD", "C0"} THEN 1 ELSE 2
\* per point and penalty: <<weight * alpha, gap>>
States(P, ori, c) ==
  LET At(k) == MapTo(LAMBDA j : LET what == Acts(P, k)[j] IN
                 << RMul(RMul(P.pts[k].w, EdgeMeas(ori[k].s, P.pts[k].side)), Factor(P, ori, c, k, Which(what), Pen(P, what))),
                    Gap(P, ori, k, what, LAMBDA i : c[i]) >>, 1, Len(Acts(P, k)))
  IN Gather(At, 1, Len(P.pts))
MoveRec(p, v, s) == [x |-> VAdd(p.x, VScale(s, v.x)), s |-> Move(p.s, v.s, s)]
Step(c, v, k) == RAdd(Rel(c[k].s, v[k].s), IF k < Len(c) THEN Rel(c[k + 1].s, v[k + 1].s) ELSE Zero)
DGap(P, ori, c, k, what, v) ==
  Along(LAMBDA s : Gap(P, ori, k, what, LAMBDA i : MoveRec(c[i], v[i], s)), Step(c, v, k))
DDGap(P, ori, c, k, what, v, w) ==
  IF what \in {"WD", "C0"} THEN MapTo(LAMBDA i : Zero, 1, P.d)
  ELSE Along(LAMBDA t : Along(LAMBDA s : Gap(P, ori, k, what, LAMBDA i : MoveRec(MoveRec(c[i], w[i], t), v[i], s)), Step(c, v, k)), Step(c, w, k))
\* first variations of every gap along v
Firsts(P, ori, c, v) == Gather(LAMBDA k : MapTo(LAMBDA j : DGap(P, ori, c, k, Acts(P, k)[j], v), 1, Len(Acts(P, k))), 1, Len(P.pts))
Push(st, dv) ==      \* <<value, size>> of -alpha gap . dgap
  LET T(k) == IF Len(st[k]) = 0 THEN ZW ELSE Total(LAMBDA j : VScale(st[k][j][1], LET x == Weigh(MapTo(LAMBDA i : RNeg(RMul(st[k][j][2][i], dv[k][j][i])), 1, Len(dv[k][j]))) IN x), 1, Len(st[k]))
  IN Total(T, 1, Len(st))
Hold(P, ori, c, st, dv, dw, v, w) ==
  LET T(k) == IF Len(st[k]) = 0 THEN ZW ELSE
        Total(LAMBDA j : LET dd == DDGap(P, ori, c, k, Acts(P, k)[j], v, w) IN
                VScale(st[k][j][1], Weigh(MapTo(LAMBDA i : RMul(dv[k][j][i], dw[k][j][i]), 1, Len(dd)) \o MapTo(LAMBDA i : RMul(st[k][j][2][i], dd[i]), 1, Len(dd)))), 1, Len(st[k]))
  IN Total(T, 1, Len(st))
=============================================================================
