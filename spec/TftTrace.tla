------------------------------- MODULE TftTrace -------------------------------
(* Consumes the life of a tension-field material: Define (tft), Locate (pts),   *)
(* Set (deformed surface, frozen surface, options) and Query.                   *)
EXTENDS Tension, Json, IOUtils, TLC, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mat, pts, st, nbad
vars == << l, mat, pts, st, nbad >>
Tol == RParse("1e-6")
TolT == RParse("5e-4")
None == [t |-> "none"]
Bad(r, law, k, want, got) == PrintT("BAD|" \o r.id \o "|" \o law \o "|" \o ToString(l) \o "|pt " \o ToString(k) \o " want " \o VStr(want) \o " got " \o VStr(got)) /\ FALSE
Eq(r, law, k, want, got, scale, tol) == IF VClose(want, got, scale, tol) THEN TRUE ELSE Bad(r, law, k, want, got)
Is(r, law, k, cond, got) == IF cond THEN TRUE ELSE Bad(r, law, k, << >>, got)
Shape(r, rows, cols) == Is(r, "shape-" \o r.q, 0, r.rows = rows /\ r.cols = cols, << RI(r.rows), RI(r.cols) >>)
FieldAt(c, gx, gy, x) == RMul(c, RAdd(One, RAdd(RMul(gx, x[1]), RMul(gy, x[2]))))
ParAt(x) == [i \in 1..Len(mat.p0) |-> FieldAt(mat.p0[i], mat.pgx[i], mat.pgy[i], x)]
ThickAt(x) == FieldAt(mat.thick[1], mat.thick[2], mat.thick[3], x)
RhoAt(x) == FieldAt(mat.rho[1], mat.rho[2], mat.rho[3], x)
\* the point k at height z in the configuration i
Point(k, z, i) ==
  LET p == pts.p[k]
      par == ParAt(p.x)
      a0 == Metric(p.ori)
      g0 == MetricAt(p.ori, z)
      c == MetricAt(p.defs[i], z)
      s == Stress(mat.law, mat.comp, par, a0, g0, c)
      e == VScale(Half, VSub(c, g0))
      Asc(x) == << x[2], x[1] >>
      d0 == InvD(g0, c)
  IN [ par |-> par, a0 |-> a0, g0 |-> g0, c |-> c, s |-> s, e |-> e,
       ps |-> Asc(Eig2(Contract(g0, s), RMul(Det2(g0), Det2(s)))), pe |-> Asc(Eig2(Contract(Inv2(g0), e), RDiv(Det2(e), Det2(g0)))),
       j |-> IF mat.law = "SvK" THEN RSqrt(d0) ELSE RSqrt(RMul(d0, C33(mat.law, mat.comp, par, Inv1(g0, c), d0))),
       size |-> RMul(RParse("1e-3"), par[1]) ]
SlackOf(x) == VScale(st.slack, x)
Rows == [class |-> 1, stress |-> 3, vector |-> 3, strain |-> 3, matrix |-> 9, cauchy |-> 3, pstress |-> 2, pstrain |-> 3, theta |-> 1, gamma |-> 1,
         baseStress |-> 3, VectorN |-> 3, MatrixA |-> 9, thickness |-> 1, density |-> 1]
Nan(x) == ~RFinite(x[1])
\* the answer got at location k, height z
Law(r, k, z, got) ==
  LET pt == Point(k, z, st.cur)
      cp == IF st.explicit THEN Point(k, z, st.frozen) ELSE pt
      es == RParse("1e-6")
      edge == Edge(st.crit, cp.ps, cp.pe, RMul(RParse("1e-3"), cp.size), es) \/ Edge(2, pt.ps, pt.pe, RMul(RParse("1e-3"), pt.size), es)
      cl == Class(st.crit, cp.ps, cp.pe)
      solvable == Class(2, pt.ps, pt.pe) = 0     \* there is a uniaxial state to relax to
      con == RMul(pt.size, VMaxAbs(Inv2(pt.a0)))
      rx == Relaxed(mat.law, mat.comp, pt.par, pt.a0, pt.g0, pt.c)
      t == ThickAt(pts.p[k].x)
      By(law, taut, slack, wrinkled, size, tol) ==
        CASE cl = 1 -> Eq(r, law \o "-taut", k, taut, got, size, tol)
          [] cl = -1 -> Eq(r, law \o "-slack", k, slack, got, size, tol)
          [] OTHER -> ~solvable \/ Eq(r, law \o "-wrinkled", k, wrinkled, got, size, tol)
  IN CASE r.q = "baseStress" -> Eq(r, r.q, k, pt.s, got, con, Tol)
       [] r.q = "thickness" -> Eq(r, r.q, k, << t >>, got, Zero, Tol)
       [] r.q = "density" -> Eq(r, r.q, k, << RMul(t, RhoAt(pts.p[k].x)) >>, got, Zero, Tol)
       [] edge -> TRUE
       [] r.q = "class" -> Eq(r, r.q, k, << RI(cl) >>, got, One, Tol)
       [] r.q \in {"stress", "vector"} ->
            /\ By(r.q, pt.s, SlackOf(pt.s), rx.s, con, Tol)
            /\ (cl = 0 /\ solvable) =>
                 /\ Is(r, r.q \o "-uniaxial", k, RLeq(RAbs(RMul(Det2(pt.a0), Det2(got))), RMul(Tol, Sq(RMax(pt.size, RAbs(Contract(pt.a0, got)))))), got)
                 \* the relaxation is a first-order step: its result is sure to be tensile for the linear law
                 /\ mat.law = "SvK" => Is(r, r.q \o "-tension", k, RLeq(RNeg(RMul(Tol, pt.size)), Contract(pt.a0, got)), got)
       [] r.q = "strain" -> By(r.q, Eng(pt.e), SlackOf(Eng(pt.e)), VAdd(Eng(pt.e), rx.ew), RMul(RParse("1e-3"), VMaxAbs(pt.g0)), Tol)
       [] r.q = "matrix" ->
            LET c == Tangent(mat.law, mat.comp, pt.par, pt.a0, pt.g0, pt.c) IN
            IF cl = 0 /\ mat.lin /\ mat.law # "SvK" THEN TRUE      \* the linear variant is meant for the linear law
            ELSE By(r.q, c, SlackOf(c), IF cl = 0 /\ solvable THEN RelaxedTangent(mat.law, mat.comp, pt.par, pt.a0, pt.g0, pt.c) ELSE c, VMaxAbs(c), TolT)
       [] r.q = "cauchy" -> By(r.q, VScale(RDiv(One, pt.j), pt.s), VScale(RDiv(st.slack, pt.j), pt.s), VScale(RDiv(One, pt.j), rx.s), con, Tol)
       [] r.q = "pstress" -> IF cl = 0 THEN TRUE ELSE By(r.q, pt.ps, SlackOf(pt.ps), pt.ps, pt.size, Tol)
       [] r.q = "pstrain" -> LET x == << pt.pe[1], pt.pe[2], Zero >> IN IF cl = 0 THEN TRUE ELSE By(r.q, x, SlackOf(x), x, RParse("1e-2"), Tol)
       [] r.q = "theta" -> IF cl # 0 THEN Is(r, "theta-none", k, Nan(got), got)
                           ELSE ~solvable \/ LET n == << RCos(got[1]), RSin(got[1]) >> IN
                                Eq(r, r.q, k, << Zero >>, << RSub(RMul(n[1], rx.n[2]), RMul(n[2], rx.n[1])) >>, One, RParse("1e-5"))
       [] r.q = "gamma" -> IF cl # 0 THEN Is(r, "gamma-none", k, Nan(got), got)
                           ELSE ~solvable \/ Eq(r, r.q, k, << rx.q >>, got, RMul(RParse("1e-3"), VMaxAbs(pt.g0)), Tol)
\* resultants: thickness times the mean over both faces (the linear law: its membrane part), where every class is decided and solvable
IntegLaw(r, k, got) ==
  LET t == ThickAt(pts.p[k].x)
      h == IF mat.d = 2 THEN Zero ELSE RMul(Half, t)
      lin == mat.law = "SvK"
      Of(z) ==
        LET pt == Point(k, z, st.cur)
            cp == IF st.explicit THEN Point(k, z, st.frozen) ELSE pt
            es == RParse("1e-6")
            cl == Class(st.crit, cp.ps, cp.pe)
            c == Tangent(mat.law, mat.comp, pt.par, pt.a0, pt.g0, pt.c)
            use == /\ ~Edge(st.crit, cp.ps, cp.pe, RMul(RParse("1e-3"), cp.size), es) /\ ~Edge(2, pt.ps, pt.pe, RMul(RParse("1e-3"), pt.size), es)
                   /\ cl = 0 => (Class(2, pt.ps, pt.pe) = 0 /\ (r.q = "VectorN" \/ ~mat.lin \/ lin))
        IN [ use |-> use, cl |-> cl,
             v |-> IF ~use THEN << >>
                   ELSE IF r.q = "VectorN" THEN (IF cl = 1 THEN pt.s ELSE IF cl = -1 THEN SlackOf(pt.s) ELSE Relaxed(mat.law, mat.comp, pt.par, pt.a0, pt.g0, pt.c).s)
                   ELSE (IF cl = 1 THEN c ELSE IF cl = -1 THEN SlackOf(c) ELSE RelaxedTangent(mat.law, mat.comp, pt.par, pt.a0, pt.g0, pt.c)),
             size |-> IF r.q = "VectorN" THEN RMul(pt.size, VMaxAbs(Inv2(pt.a0))) ELSE VMaxAbs(c) ]
      a == Of(h) b == Of(RNeg(h)) m == Of(Zero)
      want == IF lin THEN m.v ELSE VScale(Half, VAdd(a.v, b.v))
  IN IF a.use /\ b.use /\ (lin => (m.use /\ m.cl = a.cl /\ m.cl = b.cl))
     THEN Eq(r, r.q, k, VScale(t, want), got, RMul(t, a.size), IF r.q = "VectorN" THEN Tol ELSE TolT) ELSE TRUE
\* locations only, or locations and heights
Flat == {"VectorN", "MatrixA", "thickness", "density"}
QueryOk(r) ==
  IF r.how # "ok" THEN Bad(r, "answered-" \o r.q, 0, << >>, << >>)
  ELSE IF r.q \in Flat THEN Shape(r, Rows[r.q], pts.n) /\ \A k \in 1..pts.n : IF r.q \in {"VectorN", "MatrixA"} THEN IntegLaw(r, k, r.val[k]) ELSE Law(r, k, Zero, r.val[k])
  ELSE Shape(r, Rows[r.q], pts.n * pts.m) /\ \A j \in 1..pts.m : \A k \in 1..pts.n :
         Law(r, k, IF mat.d = 2 THEN Zero ELSE RMul(pts.p[k].z[j], ThickAt(pts.p[k].x)), r.val[(j - 1) * pts.n + k])
Init == l = 1 /\ mat = None /\ pts = None /\ st = None /\ nbad = 0
Rd == Trace[l]
Define == Rd.t = "tft" /\ mat' = Rd /\ pts' = None /\ st' = [cur |-> 1, frozen |-> 0, explicit |-> FALSE, slack |-> Zero, crit |-> 2] /\ nbad' = nbad
Locate == Rd.t = "pts" /\ mat # None /\ pts' = Rd /\ UNCHANGED << mat, st, nbad >>
Set    == Rd.t = "set" /\ st' = (CASE Rd.what = "def" -> [st EXCEPT !.cur = Rd.k]
                                   [] Rd.what = "upd" -> [st EXCEPT !.frozen = Rd.k]
                                   [] Rd.what = "exp" -> [st EXCEPT !.explicit = (Rd.k = 1)]
                                   [] Rd.what = "crit" -> [st EXCEPT !.crit = Rd.k]
                                   [] Rd.what = "slack" -> [st EXCEPT !.slack = Rd.v[1]]) /\ UNCHANGED << mat, pts, nbad >>
Query  == Rd.t = "q" /\ pts # None /\ nbad' = (IF QueryOk(Rd) THEN nbad ELSE nbad + 1) /\ UNCHANGED << mat, pts, st >>
Abort  == Rd.t = "end" /\ ~Bad(Rd, "completes-" \o Rd.how, 0, << >>, << >>) /\ nbad' = nbad + 1 /\ UNCHANGED << mat, pts, st >>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Define \/ Locate \/ Set \/ Query \/ Abort) /\ TLCSet(1, nbad')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
