------------------------------- MODULE MatTrace -------------------------------
(* Consumes a trace recorded from the material classes: Define (mat),          *)
(* Locate (pts), and one Query step per answered evaluation request.  A Query  *)
(* step is a behaviour of the specification iff the answer obeys every law.    *)
EXTENDS Constitutive, Fields, Catalogue, Json, IOUtils, TLC, Integers, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mat, pts, ans, nbad
vars == << l, mat, pts, ans, nbad >>

Tol == RParse("1e-7")
None == [t |-> "none"]

\* the record of a material point (k-th location, j-th height) of the current batch
FieldAt(c, gx, gy, x) == RMul(c, RAdd(One, RAdd(RMul(gx, x[1]), RMul(gy, x[2]))))
ParAt(x) == [i \in 1..Len(mat.p0) |-> FieldAt(mat.p0[i], mat.pgx[i], mat.pgy[i], x)]
ThickAt(x) == FieldAt(mat.thick[1], mat.thick[2], mat.thick[3], x)
RhoAt(x) == FieldAt(mat.rho[1], mat.rho[2], mat.rho[3], x)
Height(k, j) == IF mat.d = 2 THEN Zero ELSE RMul(pts.p[k].z[j], ThickAt(pts.p[k].x))
Col(r, k, j) == r.val[(j - 1) * pts.n + k]

Bad(r, law, k, want, got) == PrintT("BAD|" \o r.id \o "|" \o law \o "|" \o ToString(l) \o "|pt " \o ToString(k) \o " want " \o VStr(want) \o " got " \o VStr(got)) /\ FALSE
Eq(r, law, k, want, got, scale, tol) ==
  IF VClose(want, got, scale, tol) THEN TRUE ELSE Bad(r, law, k, want, got)
Is(r, law, k, cond, got) == IF cond THEN TRUE ELSE Bad(r, law, k, << >>, got)

\* --------------------------------------------------------------------- laws
StressScale(par) == RMul(RParse("1e-3"), par[1])   \* absolute scale: tiny stresses are compared against 1e-3 E (in orthonormal size)
ConScale(a, par) == RMul(StressScale(par), VMaxAbs(Inv2(a)))

StressLaw(r, name, k, j, got, z) ==
  LET p == pts.p[k]
      par == ParAt(p.x)
      a0 == Metric(p.ori)
      want == Stress(mat.law, mat.comp, par, a0, MetricAt(p.ori, z), MetricAt(p.def, z))
  IN Eq(r, name, k, want, got, ConScale(a0, par), Tol)

TangentLaw(r, name, k, j, got, z) ==
  LET p == pts.p[k]
      par == ParAt(p.x)
      a0 == Metric(p.ori)
      g0 == MetricAt(p.ori, z)
      want == Tangent(mat.law, mat.comp, par, a0, g0, MetricAt(p.def, z))
  IN /\ Eq(r, name, k, want, got, Zero, RParse("2e-6"))
     /\ Eq(r, name \o "-symmetric", k, << got[2], got[3], got[6] >>, << got[4], got[7], got[8] >>, VMaxAbs(got), RParse("1e-9"))
     /\ (mat.motion = "zero" => Eq(r, name \o "-groundstate", k, SmallStrain(mat.law, mat.comp, par, IF mat.law = "SvK" THEN a0 ELSE g0), got, Zero, RParse("1e-6")))

\* the derivative of the tangent with respect to C11, C22 and 2 C12 (three numbers per component), compared at the
\* size of its largest component; the tangent itself is a difference quotient, so the comparison is coarse
DTangentLaw(r, name, k, j, got, z) ==
  LET p == pts.p[k]
      par == ParAt(p.x)
      a0 == Metric(p.ori)
      g0 == MetricAt(p.ori, z)
      c == MetricAt(p.def, z)
      T(cc) == Tangent(mat.law, mat.comp, par, a0, g0, cc)
      H(m) == RMul(RParse("2e-3"), IF m = 1 THEN g0[1] ELSE IF m = 2 THEN g0[2] ELSE RSqrt(RMul(g0[1], g0[2])))
      \* Bump moves C by twice the strain
      D1(m, h) == VScale(RDiv(One, RMul(RI(4), h)), VSub(T(Bump(c, m, h)), T(Bump(c, m, RNeg(h)))))
      D(m) == VScale(Third, VSub(VScale(RI(4), D1(m, H(m))), D1(m, RMul(Two, H(m)))))
      d1 == D(1) d2 == D(2) d3 == D(3)
      want == [i \in 1..27 |-> LET e == ((i - 1) \div 3) + 1 m == (i - 1) % 3 IN IF m = 0 THEN d1[e] ELSE IF m = 1 THEN d2[e] ELSE d3[e]]
  IN IF mat.law = "SvK" THEN Eq(r, name, k, [i \in 1..27 |-> Zero], got, One, Tol)
     ELSE Eq(r, name, k, want, got, Zero, RParse("1e-3"))

\* the state of one material point: everything the derived quantities must agree with
State(k, z) ==
  LET p == pts.p[k]
      par == ParAt(p.x)
      a0 == Metric(p.ori)
      g0 == MetricAt(p.ori, z)
      c == MetricAt(p.def, z)
      dd == InvD(g0, c)
      c33 == IF mat.law = "SvK" THEN RDiv(One, dd) ELSE C33(mat.law, mat.comp, par, Inv1(g0, c), dd)
      \* the linear law neglects the change of thickness in its volume ratio
      j == IF mat.law = "SvK" THEN RSqrt(dd) ELSE IF mat.comp THEN RSqrt(RMul(dd, c33)) ELSE One
      s == Stress(mat.law, mat.comp, par, a0, g0, c)
  IN [ g0 |-> g0, c |-> c, c33 |-> c33, j |-> j, s |-> s, e |-> VScale(Half, VSub(c, g0)),
       cov |-> BaseAt(p.ori, z), con |-> ConBase(BaseAt(p.ori, z)), def |-> BaseAt(p.def, z), n |-> Normal(p.ori),
       size |-> StressScale(par) ]

\* v = v1 v2 v3: orthonormal, v3 the normal, each in-plane one mapped to its principal value x[k] by the tensor A
Principal(r, law, k, v, x, n, A(_), size) ==
  LET v1 == SubSeq(v, 1, 3) v2 == SubSeq(v, 4, 6) v3 == SubSeq(v, 7, 9) IN
  /\ Eq(r, law \o "-orthonormal", k, << One, One, One, Zero, Zero, Zero >>,
        << VDot(v1, v1), VDot(v2, v2), VDot(v3, v3), VDot(v1, v2), VDot(v1, v3), VDot(v2, v3) >>, One, Tol)
  /\ Eq(r, law \o "-normal", k, << One >>, << RAbs(VDot(v3, n)) >>, One, Tol)
  /\ Eq(r, law \o "-eigen", k, VScale(x[1], v1) \o VScale(x[2], v2), A(v1) \o A(v2), size, Tol)

SumProd(x) == << RAdd(x[1], x[2]), RMul(x[1], x[2]) >>
Asc(r, law, k, x) == Is(r, law \o "-order", k, RLeq(x[1], RAdd(x[2], RMul(Tol, RMax(RAbs(x[1]), RAbs(x[2]))))), x)
\* principal values against trace and determinant; determinants are compared at the square of the size
Values(r, law, k, td, x, size) ==
  LET m == RMax(size, RMax(RAbs(x[1]), RAbs(x[2]))) IN
  /\ Asc(r, law, k, x)
  /\ Eq(r, law, k, << td[1] >>, << RAdd(x[1], x[2]) >>, m, Tol)
  /\ Eq(r, law, k, << td[2] >>, << RMul(x[1], x[2]) >>, Sq(m), Tol)

\* components along the vectors b of the tensor with components t on the base a
Image(t, a, b) == LET x == ApplyOn(t, a, b[1]) y == ApplyOn(t, a, b[2]) IN << VDot(b[1], x), VDot(b[2], y), VDot(b[1], y) >>
DerivedLaw(r, k, j, got) ==
  LET st == State(k, Height(k, j))
      idx == (j - 1) * pts.n + k
  IN CASE r.q = "strain" -> Eq(r, r.q, k, Eng(st.e), got, RMul(RParse("1e-3"), VMaxAbs(st.g0)), Tol)
       [] r.q = "deformation" ->
            Eq(r, r.q, k, << st.c[1], st.c[3], Zero, st.c[3], st.c[2], Zero, Zero, Zero, st.c33 >>, got, Zero, Tol)
       [] r.q = "pstretch" ->
            /\ Values(r, r.q, k, TraceDet(st.c, st.con), << Sq(got[1]), Sq(got[2]) >>, One)
            /\ Eq(r, r.q \o "-thickness", k, << st.c33 >>, << Sq(got[3]) >>, Zero, Tol)
       [] r.q = "pstretchDir" ->
            LET x == ans["pstretch"][idx] IN
            Principal(r, r.q, k, got, << Sq(x[1]), Sq(x[2]) >>, st.n, LAMBDA v : ApplyOn(st.c, st.con, v), Sq(x[2]))
       [] r.q \in {"B_spec2cov", "B_pstress", "B_spec2con", "B_pstretch", "B_cov2cart", "B_con2cart"} ->
            \* change of basis: takes the components (11,22,12) on the one basis to those along the vectors of the other
            LET v == ans["pstretchDir"][idx]
                cart == << << One, Zero, Zero >>, << Zero, One, Zero >> >>
                on == IF r.q \in {"B_spec2cov", "B_pstress"} THEN st.cov ELSE IF r.q \in {"B_spec2con", "B_pstretch"} THEN st.con ELSE cart
                to == IF r.q = "B_cov2cart" THEN st.cov ELSE IF r.q = "B_con2cart" THEN st.con ELSE << SubSeq(v, 1, 3), SubSeq(v, 4, 6) >>
                want == Image(<< One, Zero, Zero >>, on, to) \o Image(<< Zero, One, Zero >>, on, to) \o Image(<< Zero, Zero, One >>, on, to)
            IN Eq(r, r.q, k, want, got, Zero, Tol)
       [] r.q = "pstrain" ->
            /\ Values(r, r.q, k, TraceDet(st.e, st.con), got, RParse("1e-3"))
            /\ Eq(r, r.q \o "-thickness", k, << Zero >>, << got[3] >>, One, Tol)
       [] r.q = "pstress" -> Values(r, r.q, k, TraceDet(st.s, st.cov), got, st.size)
       [] r.q = "pstressDir" ->
            LET x == ans["pstress"][idx] IN
            Principal(r, r.q, k, got, x, st.n, LAMBDA v : ApplyOn(st.s, st.cov, v), RMax(st.size, RMax(RAbs(x[1]), RAbs(x[2]))))
       [] r.q = "detF" -> Eq(r, r.q, k, << st.j >>, got, Zero, Tol)
       [] r.q \in {"cauchy", "cauchyV"} ->
            Eq(r, r.q, k, VScale(RDiv(One, st.j), st.s), got, RMul(st.size, VMaxAbs(Inv2(st.g0))), Tol)
       [] r.q = "cpstress" -> Values(r, r.q, k, TraceDet(VScale(RDiv(One, st.j), st.s), st.def), got, st.size)

\* ---------------------------------------------------- thickness integrals
\* The hyperelastic laws are integrated numerically with the requested rule; the linear law is
\* linear over the thickness: membrane strain and curvature change are integrated exactly.
Rule4(k) == GaussRules[IF mat.ng = 0 THEN 4 ELSE mat.ng]
RECURSIVE SumTo(_, _, _)
SumTo(F(_), i, n) == IF i = n THEN F(i) ELSE VAdd(F(i), SumTo(F, i + 1, n))
\* integral of z^m F(z) over the thickness t with rule g
Moment(F(_), g, t, m) ==
  LET Term(i) == VScale(RMul(RMul(g[i][2], t), IF m = 0 THEN One ELSE IF m = 1 THEN RMul(g[i][1], t) ELSE Sq(RMul(g[i][1], t))),
                        F(IF mat.d = 2 THEN Zero ELSE RMul(g[i][1], t)))
  IN SumTo(Term, 1, Len(g))
Cube12(t) == RDiv(RMul(t, Sq(t)), RI(12))
Zeros9 == << Zero, Zero, Zero, Zero, Zero, Zero, Zero, Zero, Zero >>

IntegLaw(r, k, got) ==
  LET p == pts.p[k]
      par == ParAt(p.x)
      t == ThickAt(p.x)
      a0 == Metric(p.ori)
      g == Rule4(k)
      size == RMul(t, ConScale(a0, par))
      lin == mat.law = "SvK"
      cc == SvKTensor(par, a0)
      n == VScale(t, MatVec3(cc, Eng(Membrane(p.ori, p.def))))
      m == IF mat.d = 2 THEN << Zero, Zero, Zero >> ELSE VScale(Cube12(t), MatVec3(cc, Eng(Bending(p.ori, p.def))))
      j0 == RSqrt(InvD(a0, Metric(p.def)))
      S(z) == Stress(mat.law, mat.comp, par, a0, MetricAt(p.ori, z), MetricAt(p.def, z))
      T(z) == Tangent(mat.law, mat.comp, par, a0, MetricAt(p.ori, z), MetricAt(p.def, z))
      Cy(z) == LET st == State(k, z) IN VScale(RDiv(One, st.j), st.s)
      P(z) == LET st == State(k, z) e == Eig2(TraceDet(st.s, st.cov)[1], TraceDet(st.s, st.cov)[2]) IN << e[2], e[1] >>
      Both(law, n0, m1, got2) ==
        /\ Eq(r, law \o "-N", k, n0, SubSeq(got2, 1, Len(n0)), size, Tol)
        /\ Eq(r, law \o "-M", k, m1, SubSeq(got2, Len(n0) + 1, 2 * Len(n0)), RMul(t, RMax(size, VMaxAbs(n0))), Tol)
      Pv(x) == LET e == Eig2(Contract(a0, x), RMul(Det2(a0), Det2(x))) IN << e[2], e[1] >>
  IN CASE r.q = "NM" -> IF lin THEN Both(r.q, n, m, got) ELSE Both(r.q, Moment(S, g, t, 0), Moment(S, g, t, 1), got)
       [] r.q = "cNM" -> IF lin THEN Both(r.q, VScale(RDiv(One, j0), n), VScale(RDiv(One, j0), m), got)
                         ELSE Both(r.q, Moment(Cy, g, t, 0), Moment(Cy, g, t, 1), got)
       [] r.q = "pNM" -> IF lin THEN Both(r.q, Pv(n), Pv(m), got) ELSE Both(r.q, Moment(P, g, t, 0), Moment(P, g, t, 1), got)
       [] r.q = "ABCD" ->
            LET tt == [i \in 1..Len(g) |-> T(IF mat.d = 2 THEN Zero ELSE RMul(g[i][1], t))]
                W(i, m2) == VScale(RMul(RMul(g[i][2], t), IF m2 = 0 THEN One ELSE IF m2 = 1 THEN RMul(g[i][1], t) ELSE Sq(RMul(g[i][1], t))), tt[i])
                Mo(m2) == SumTo(LAMBDA i : W(i, m2), 1, Len(g))
                A == IF lin THEN VScale(t, cc) ELSE Mo(0)
                B == IF lin THEN Zeros9 ELSE Mo(1)
                D == IF lin THEN VScale(Cube12(t), cc) ELSE Mo(2)
                sz == VMaxAbs(A)
                TolT == RParse("2e-6")
            IN /\ Eq(r, "A", k, A, SubSeq(got, 1, 9), sz, TolT)
               /\ Eq(r, "B", k, B, SubSeq(got, 10, 18), RMul(t, sz), TolT)
               /\ Eq(r, "C", k, B, SubSeq(got, 19, 27), RMul(t, sz), TolT)
               /\ Eq(r, "D", k, D, SubSeq(got, 28, 36), IF Len(g) = 1 THEN RMul(Sq(t), sz) ELSE Zero, TolT)
IntegRows == [NM |-> 6, cNM |-> 6, pNM |-> 4, ABCD |-> 36]

\* ---------------------------------------------------- fields of a shell
\* what the field of that name shows at the k-th location; values at the mid-surface
FieldRows == [ f_displacement |-> 3, f_von_mises |-> 2, f_von_mises_membrane |-> 1, f_von_mises_flexural |-> 1, f_membrane |-> 3,
   f_membrane_force |-> 3, f_membrane_PK2 |-> 3, f_membrane_force_PK2 |-> 3, f_flexural |-> 3, f_flexural_PK2 |-> 3,
   f_flexural_moment |-> 3, f_flexural_moment_PK2 |-> 3, f_membrane_strain |-> 3, f_flexural_strain |-> 3,
   f_principal_membrane_strain |-> 3, f_principal_flexural_strain |-> 3, f_principal_stretch |-> 3, f_principal_stress |-> 2,
   f_principal_stress_membrane |-> 2, f_principal_stress_flexural |-> 2, f_principal_stretch_dir1 |-> 3, f_principal_stretch_dir2 |-> 3,
   f_principal_stretch_dir3 |-> 3, f_principal_stress_dir1 |-> 3, f_principal_stress_dir2 |-> 3, f_principal_stress_dir3 |-> 3, f_tension_field |-> 1 ]
\* v is a unit vector in the tangent plane with A v = x v
Direction(r, k, v, x, n, A(_), size) ==
  /\ Eq(r, r.q \o "-unit", k, << One, Zero >>, << VDot(v, v), VDot(v, n) >>, One, Tol)
  /\ Eq(r, r.q \o "-eigen", k, VScale(x, v), A(v), size, Tol)
FieldLaw(r, k, got) ==
  LET p == pts.p[k]
      par == ParAt(p.x)
      t == ThickAt(p.x)
      lin == mat.law = "SvK"
      st == State(k, Zero)
      g == GaussRules[4]
      cc == SvKTensor(par, Metric(p.ori))
      \* flexural part: the linear law's answer to the curvature change (per unit height); otherwise what the material answers
      sf == IF lin THEN MatVec3(cc, Eng(Bending(p.ori, p.def))) ELSE ans["ref"][k]
      cf == IF lin THEN VScale(RDiv(One, st.j), sf) ELSE ans["ref"][k]
      S(z) == Stress(mat.law, mat.comp, par, Metric(p.ori), MetricAt(p.ori, z), MetricAt(p.def, z))
      Cy(z) == LET q == State(k, z) IN VScale(RDiv(One, q.j), q.s)
      N == IF lin THEN VScale(t, st.s) ELSE Moment(S, g, t, 0)
      M == IF lin THEN VScale(Cube12(t), sf) ELSE Moment(S, g, t, 1)
      cN == IF lin THEN VScale(RDiv(t, st.j), st.s) ELSE Moment(Cy, g, t, 0)
      cM == IF lin THEN VScale(RDiv(Cube12(t), st.j), sf) ELSE Moment(Cy, g, t, 1)
      sm == Stresses(st.s, p.ori)
      sb == Stresses(sf, p.ori)
      Cmp(want, size) == Eq(r, r.q, k, want, got, size, Tol)
      k2 == Strains(Bending(p.ori, p.def), p.ori)
      pk == Eig2(RAdd(k2[1], k2[2]), Det2(k2))
      e2 == Eig2(TraceDet(st.e, st.con)[1], TraceDet(st.e, st.con)[2])
      c2 == Eig2(TraceDet(st.c, st.con)[1], TraceDet(st.c, st.con)[2])
      s2 == Eig2(TraceDet(st.s, st.cov)[1], TraceDet(st.s, st.cov)[2])
      sz == RMax(st.size, RMax(RAbs(s2[1]), RAbs(s2[2])))
  IN CASE r.q = "f_displacement" -> Cmp(VSub(p.y, p.x), One)
       [] r.q = "f_membrane" -> Cmp(Stresses(VScale(RDiv(One, st.j), st.s), p.def), st.size)
       [] r.q = "f_membrane_PK2" -> Cmp(sm, st.size)
       [] r.q = "f_flexural" -> Cmp(Stresses(cf, p.def), st.size)
       [] r.q = "f_flexural_PK2" -> Cmp(sb, st.size)
       [] r.q = "f_membrane_force" -> Cmp(Stresses(cN, p.def), RMul(t, st.size))
       [] r.q = "f_membrane_force_PK2" -> Cmp(Stresses(N, p.ori), RMul(t, st.size))
       [] r.q = "f_flexural_moment" -> Cmp(Stresses(cM, p.def), RMul(t, RMax(RMul(t, st.size), VMaxAbs(Stresses(cN, p.def)))))
       [] r.q = "f_flexural_moment_PK2" -> Cmp(Stresses(M, p.ori), RMul(t, RMax(RMul(t, st.size), VMaxAbs(Stresses(N, p.ori)))))
       [] r.q = "f_von_mises" -> Cmp(<< VonMises(VAdd(sm, sb)), VonMises(VSub(sm, sb)) >>, RMax(st.size, RMax(VMaxAbs(sm), VMaxAbs(sb))))
       [] r.q = "f_von_mises_membrane" -> Cmp(<< VonMises(sm) >>, st.size)
       [] r.q = "f_von_mises_flexural" -> Cmp(<< VonMises(sb) >>, st.size)
       [] r.q = "f_membrane_strain" -> Cmp(Strains(st.e, p.ori), RParse("1e-3"))
       [] r.q = "f_flexural_strain" -> Cmp(k2, RParse("1e-3"))
       [] r.q = "f_principal_membrane_strain" -> Cmp(<< e2[2], e2[1], Zero >>, RParse("1e-1"))
       [] r.q = "f_principal_flexural_strain" -> Cmp(<< pk[2], pk[1], Zero >>, RParse("1e-1"))
       [] r.q = "f_principal_stretch" -> Cmp(<< RSqrt(c2[2]), RSqrt(c2[1]), RSqrt(st.c33) >>, One)
       [] r.q = "f_principal_stress" -> Values(r, r.q, k, TraceDet(st.s, st.cov), got, st.size)
       [] r.q = "f_principal_stress_membrane" -> Values(r, r.q, k, TraceDet(VScale(RDiv(One, st.j), st.s), st.def), got, st.size)
       [] r.q = "f_principal_stress_flexural" -> Values(r, r.q, k, TraceDet(cf, st.def), got, st.size)
       [] r.q \in {"f_principal_stretch_dir1", "f_principal_stretch_dir2"} ->
            Direction(r, k, got, c2[IF r.q = "f_principal_stretch_dir1" THEN 2 ELSE 1], st.n, LAMBDA v : ApplyOn(st.c, st.con, v), RMul(RI(10), c2[1]))
       [] r.q \in {"f_principal_stress_dir1", "f_principal_stress_dir2"} ->
            Direction(r, k, got, s2[IF r.q = "f_principal_stress_dir1" THEN 2 ELSE 1], st.n, LAMBDA v : ApplyOn(st.s, st.cov, v), RMul(RI(10), sz))
       [] r.q \in {"f_principal_stretch_dir3", "f_principal_stress_dir3"} ->
            Eq(r, r.q, k, << One, One >>, << RAbs(VDot(got, st.n)), VDot(got, got) >>, One, Tol)
       [] r.q = "f_tension_field" ->
            \* taut, wrinkled or slack by the mixed criterion; not judged on the edge of a class
            LET edge == \/ RLeq(RAbs(s2[2]), RMul(RParse("1e-6"), st.size)) \/ RLeq(RAbs(e2[1]), RParse("1e-9"))
                want == IF RLeq(Zero, s2[2]) THEN One ELSE IF RLeq(e2[1], Zero) THEN RNeg(One) ELSE Zero
            IN edge \/ Cmp(<< want >>, One)

DerivedRows == [strain |-> 3, deformation |-> 9, pstretch |-> 3, pstretchDir |-> 9, pstrain |-> 3, pstress |-> 2,
                pstressDir |-> 9, B_spec2cov |-> 9, B_spec2con |-> 9, B_cov2cart |-> 9, B_con2cart |-> 9, B_pstretch |-> 9, B_pstress |-> 9, detF |-> 1, cauchy |-> 3, cauchyV |-> 3, cpstress |-> 2]
AllCols(r, P(_, _)) == \A j \in 1..pts.m : \A k \in 1..pts.n : P(k, j)
AllPts(r, P(_)) == \A k \in 1..pts.n : P(k)

Shape(r, rows, cols) == Is(r, "shape-" \o r.q, 0, r.rows = rows /\ r.cols = cols, << RI(r.rows), RI(r.cols) >>)

\* a request is refused only where the library offers no such evaluation
Refusable(q) == (q = "vectorC" \/ q = "matrixC") /\ FALSE

QueryOk(r) ==
  IF r.how # "ok" THEN (Refusable(r.q) \/ Bad(r, "answered-" \o r.q, 0, << >>, << >>))
  ELSE CASE r.q \in {"stress", "vector"} ->
              Shape(r, 3, pts.n * pts.m) /\ AllCols(r, LAMBDA k, j : StressLaw(r, r.q, k, j, Col(r, k, j), Height(k, j)))
         [] r.q = "vectorC" ->
              \* from a given deformation tensor (that of the height asked for; the linear law answers at the mid-surface)
              IF mat.law = "SvK" THEN Shape(r, 3, pts.n) /\ AllPts(r, LAMBDA k : StressLaw(r, r.q, k, 1, r.val[k], Zero))
              ELSE Shape(r, 3, pts.n * pts.m) /\ AllCols(r, LAMBDA k, j : StressLaw(r, r.q, k, j, Col(r, k, j), Height(k, j)))
         [] r.q = "matrix" ->
              Shape(r, 9, pts.n * pts.m) /\ AllCols(r, LAMBDA k, j : TangentLaw(r, r.q, k, j, Col(r, k, j), Height(k, j)))
         [] r.q = "matrixC" ->
              Shape(r, 9, pts.n * pts.m) /\ AllCols(r, LAMBDA k, j : TangentLaw(r, r.q, k, j, Col(r, k, j), Height(k, j)))
         [] r.q = "dmatrix" ->
              Shape(r, 27, pts.n * pts.m) /\ AllCols(r, LAMBDA k, j : DTangentLaw(r, r.q, k, j, Col(r, k, j), Height(k, j)))
         [] r.q \in DOMAIN DerivedRows ->
              Shape(r, DerivedRows[r.q], pts.n * pts.m) /\ AllCols(r, LAMBDA k, j : DerivedLaw(r, k, j, Col(r, k, j)))
         [] r.q \in DOMAIN FieldRows ->
              Shape(r, FieldRows[r.q], pts.n) /\ AllPts(r, LAMBDA k : FieldLaw(r, k, r.val[k]))
         [] r.q = "ref" -> TRUE
         [] r.q = "drift" -> Is(r, "state-unchanged", 0, RLeq(r.val[1][1], RParse("1e-12")), r.val[1])
         [] r.q \in DOMAIN IntegRows ->
              Shape(r, IntegRows[r.q], pts.n) /\ AllPts(r, LAMBDA k : IntegLaw(r, k, r.val[k]))
         [] r.q \in {"spec2cov", "spec2con", "cov2cart", "con2cart", "pstretchTransform", "pstressTransform"} ->
              \* basis changes: each point of a batch as when it is asked for alone
              Shape(r, 9, pts.n * pts.m) /\ \A c \in 1..(pts.n * pts.m) : Eq(r, r.q, c, r.alone[c], r.val[c], RParse("1e-3"), RParse("1e-9"))
         [] r.q \in {"twinStress", "twinMatrix"} ->
              \* what was read answers as the original
              r.rows = (IF r.q = "twinStress" THEN 3 ELSE 9) /\ \A c \in 1..r.cols : Eq(r, r.q, c, r.alone[c], r.val[c], RParse("1e-3"), RParse("1e-6"))
         [] r.q = "thickness" -> Shape(r, 1, pts.n) /\ AllPts(r, LAMBDA k : Eq(r, r.q, k, << ThickAt(pts.p[k].x) >>, r.val[k], Zero, Tol))
         [] r.q = "density" -> Shape(r, 1, pts.n) /\ AllPts(r, LAMBDA k : Eq(r, r.q, k, << RMul(RhoAt(pts.p[k].x), ThickAt(pts.p[k].x)) >>, r.val[k], Zero, Tol))
         [] r.q = "parameters" -> Shape(r, Len(mat.p0), pts.n) /\ AllPts(r, LAMBDA k : Eq(r, r.q, k, ParAt(pts.p[k].x), r.val[k], Zero, Tol))

\* a request for an object: granted exactly where the catalogue has it.  Any implementation of the linear law is the
\* linear law (except a composite); a file may refuse what it has no name for, and containers may refuse to be written.
RequestOk(r) ==
  LET c == IF r.comp THEN 1 ELSE 0
      known == CASE r.what = "factory" -> IF ~(r.law \in Laws) \/ r.impl = "C" THEN FALSE ELSE IF r.law = "SvK" THEN TRUE ELSE r.impl \in Impls /\ Offered(r.law, r.impl, c)
                 [] r.what \in {"file", "container-read", "container-write"} -> TRUE
                 [] OTHER -> FALSE
      free == CASE r.what = "factory" -> r.law = "SvK" /\ r.impl = "?"
                [] r.what = "file" -> ~Storable(r.law, r.impl)
                [] r.what = "container-write" -> TRUE
                [] OTHER -> FALSE
  IN free \/ Is(r, r.what \o "-" \o r.how, 0, (r.how = "ok") = known, << >>)
\* --------------------------------------------------------------------- steps
NoAns == [q \in {} |-> << >>]
Init == l = 1 /\ mat = None /\ pts = None /\ ans = NoAns /\ nbad = 0
Rd == Trace[l]
Define == Rd.t = "mat" /\ mat' = Rd /\ pts' = None /\ ans' = NoAns /\ nbad' = nbad
Locate == Rd.t = "pts" /\ mat # None /\ pts' = Rd /\ ans' = NoAns /\ UNCHANGED << mat, nbad >>
Query  == Rd.t = "q" /\ pts # None /\ nbad' = (IF QueryOk(Rd) THEN nbad ELSE nbad + 1)
          /\ ans' = (Rd.q :> Rd.val) @@ ans /\ UNCHANGED << mat, pts >>
Request == Rd.t = "req" /\ nbad' = (IF RequestOk(Rd) THEN nbad ELSE nbad + 1) /\ UNCHANGED << mat, pts, ans >>
Abort  == Rd.t = "end" /\ ~Bad(Rd, "completes-" \o Rd.how, 0, << >>, << >>) /\ nbad' = nbad + 1 /\ UNCHANGED << mat, pts, ans >>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Define \/ Locate \/ Query \/ Request \/ Abort) /\ TLCSet(1, nbad')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
