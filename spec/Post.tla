--------------------------------- MODULE Post ---------------------------------
(* Measures of a state: area, norms, energy, reactions, interface measures and *)
(* projections.  Points of kind "d" carry the quadrature rule of the options,  *)
(* "a" the rule of the evaluator, "l" and "r" are the two sides of interfaces. *)
EXTENDS Shell

OverD(P, kind, F(_)) == Total(LAMBDA k : IF P.pts[k].k = kind THEN F(k) ELSE ZW, 1, Len(P.pts))
Pair(x) == << x, RAbs(x) >>
Area(P, c) == OverD(P, "a", LAMBDA k : Pair(RMul(P.pts[k].w, Meas(c[k].s))))
SqDist(P, ori, c) == OverD(P, "a", LAMBDA k : LET u == VSub(c[k].x, ori[k].x) IN Pair(RMul(RMul(P.pts[k].w, Meas(ori[k].s)), VDot(u, u))))
SqSize(P, c, o) == OverD(P, "a", LAMBDA k : Pair(RMul(RMul(P.pts[k].w, Meas(o[k].s)), VDot(c[k].x, c[k].x))))
\* internal virtual work of configuration c with the field v
Internal(P, ori, c, v(_)) ==
  OverD(P, "d", LAMBDA k :
    Weigh(Inner(P, P.pts[k], ori[k], c[k], Section(P.mats[P.pts[k].patch], P.d, P.ng, ori[k].x, ori[k].s, c[k].s), v(k))))
Shift(c, o) == [x |-> VSub(c.x, o.x), s |-> Move(c.s, o.s, RI(-1))]
\* half the internal virtual work of the displacement itself
Energy(P, ori, c) == VScale(Half, Internal(P, ori, c, LAMBDA k : Shift(c[k], ori[k])))
\* the force the shell exerts on a set of control points (v: one on them, along one direction)
Reaction(P, ori, c, v) == LET i == Internal(P, ori, c, LAMBDA k : v[k]) IN << RNeg(i[1]), i[2] >>

\* ---------------------------------------------------------------- interfaces
IsOn(P, on, k) == P.pts[k].k = "l" /\ \E i \in 1..Len(on) : on[i] = P.pts[k].cond
GapOf(c, k) == VSub(c[k].x, c[k + 1].x)
TurnOf(c, k) == VSub(Normal(c[k].s), Normal(c[k + 1].s))
Sq2(v) == VDot(v, v)
EdgeSum(P, on, F(_)) == Total(LAMBDA k : IF IsOn(P, on, k) THEN Pair(RMul(P.pts[k].w, F(k))) ELSE ZW, 1, Len(P.pts))
RECURSIVE Most(_, _, _)
Most(F(_), i, n) == IF i > n THEN ZW ELSE IF i = n THEN F(i)
  ELSE LET h == (i + n) \div 2 a == Most(F, i, h) b == Most(F, h + 1, n) IN << RMax(a[1], b[1]), RMax(a[2], b[2]) >>
EdgeMax(P, on, F(_)) == Most(LAMBDA k : IF IsOn(P, on, k) THEN F(k) ELSE ZW, 1, Len(P.pts))
GaussOf(s) == RDiv(Det2(Curv(s)), Det2(Metric(s)))
MeanOf(s) == Contract(Inv2(Metric(s)), Curv(s))
Jump(x, y) == << RAbs(RSub(x, y)), RAdd(RAbs(x), RAbs(y)) >>

\* ---------------------------------------------------------------- projection
\* the difference of the projection u and of f (squares of affine components), tested with v
Squares(c, y) == LET a == Aff3(c, y) IN << Sq(a[1]), Sq(a[2]), Sq(a[3]) >>
Orthogonal(P, ori, u, c, v) ==
  OverD(P, "d", LAMBDA k : LET w == RMul(P.pts[k].w, Meas(ori[k].s)) IN
    << RMul(w, VDot(VSub(u[k].x, Squares(c, ori[k].x)), v[k].x)), RMul(w, RMul(RAdd(Norm(u[k].x), Norm(Squares(c, ori[k].x))), Norm(v[k].x))) >>)
=============================================================================
