------------------------------- MODULE LamTrace -------------------------------
(* Consumes what laminates answered: Define (lam), Locate (pts), Query (q).     *)
EXTENDS Laminate, Json, IOUtils, TLC, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, lam, pts, nbad
vars == << l, lam, pts, nbad >>
Tol == RParse("1e-9")
None == [t |-> "none"]
Bad(r, law, k, want, got) == PrintT("BAD|" \o r.id \o "|" \o law \o "|" \o ToString(l) \o "|pt " \o ToString(k) \o " want " \o VStr(want) \o " got " \o VStr(got)) /\ FALSE
Eq(r, law, k, want, got, scale, tol) == IF VClose(want, got, scale, tol) THEN TRUE ELSE Bad(r, law, k, want, got)
Is(r, law, k, cond, got) == IF cond THEN TRUE ELSE Bad(r, law, k, << >>, got)
FieldAt(f, x) == RMul(f[1], RAdd(One, RAdd(RMul(f[2], x[1]), RMul(f[3], x[2]))))
Shape(r, rows, cols) == Is(r, "shape-" \o r.q, 0, r.rows = rows /\ r.cols = cols, << RI(r.rows), RI(r.cols) >>)
Rows == [A |-> 9, B |-> 9, C |-> 9, D |-> 9, N |-> 3, M |-> 3]
Law(r, k) ==
  LET p == pts.p[k]
      q == lam.plies
      nl == Len(q)
      ts == [i \in 1..nl |-> FieldAt(q[i].t, p.x)]
      rs == [i \in 1..nl |-> RMul(ts[i], FieldAt(q[i].rho, p.x))]
      \* cosine and sine of the angle field, which the record carries at every location
      css == [i \in 1..nl |-> p.cs[i]]
      qs == [i \in 1..nl |-> IF q[i].kind = "ortho" THEN Ortho(q[i].g[1], q[i].g[2], q[i].g[3], q[i].g[4]) ELSE q[i].g]
      em == Membrane(p.ori, p.def)
      ef == Bending(p.ori, p.def)
      got == r.val[k]
      tot == SumT(ts, nl)
      a == Stiffness(qs, css, ts, p.ori, 0)
      sz == VMaxAbs(a)
      sn == RMul(sz, RMul(RParse("1e-3"), VMaxAbs(Metric(p.ori))))
      flat == lam.d = 2
      S(e, m) == Stack(qs, css, ts, p.ori, e, m)
      Bend(m) == IF flat THEN << Zero, Zero, Zero >> ELSE S(ef, m)
  IN CASE r.q = "A" -> Eq(r, r.q, k, a, got, Zero, Tol)
       [] r.q \in {"B", "C"} -> Eq(r, r.q, k, Stiffness(qs, css, ts, p.ori, 1), got, RMul(tot, sz), Tol)
       [] r.q = "D" -> Eq(r, r.q, k, Stiffness(qs, css, ts, p.ori, 2), got, Zero, Tol)
       [] r.q = "N" -> Eq(r, r.q, k, VAdd(S(em, 0), Bend(1)), got, sn, Tol)
       [] r.q = "M" -> Eq(r, r.q, k, VAdd(S(em, 1), Bend(2)), got, RMul(tot, sn), Tol)
       [] r.q = "thickness" -> Eq(r, r.q, k, ts, got, Zero, Tol)
       [] r.q = "density" -> Eq(r, r.q, k, << SumT(rs, nl) >>, got, Zero, Tol)
\* a ply stiffness as named by its entries: first index row, second index column
PlyOk(r) ==
  CASE r.kind = "ortho" -> Eq(r, "ply", 0, Ortho(r.arg[1], r.arg[2], r.arg[3], r.arg[4]), r.val, Zero, Tol)
    [] r.kind = "raw6" -> Eq(r, "ply", 0, << r.arg[1], r.arg[4], r.arg[5], r.arg[4], r.arg[2], r.arg[6], r.arg[5], r.arg[6], r.arg[3] >>, r.val, Zero, Tol)
    [] r.kind = "raw9" -> Eq(r, "ply", 0, << r.arg[1], r.arg[4], r.arg[5], r.arg[7], r.arg[2], r.arg[6], r.arg[8], r.arg[9], r.arg[3] >>, r.val, Zero, Tol)
QueryOk(r) ==
  IF r.how # "ok" THEN (~r.def /\ r.q \in DOMAIN Rows) \/ Bad(r, "answered-" \o r.q, 0, << >>, << >>)  \* a stiffness may be refused while there is no deformed surface
  ELSE /\ Shape(r, IF r.q \in DOMAIN Rows THEN Rows[r.q] ELSE IF r.q = "thickness" THEN Len(lam.plies) ELSE 1, pts.n)
       /\ \A k \in 1..pts.n : Law(r, k)
Init == l = 1 /\ lam = None /\ pts = None /\ nbad = 0
Rd == Trace[l]
Define == Rd.t = "lam" /\ lam' = Rd /\ pts' = None /\ nbad' = nbad
Locate == Rd.t = "pts" /\ lam # None /\ pts' = Rd /\ UNCHANGED << lam, nbad >>
Query  == Rd.t = "q" /\ pts # None /\ nbad' = (IF QueryOk(Rd) THEN nbad ELSE nbad + 1) /\ UNCHANGED << lam, pts >>
Ply    == Rd.t = "ply" /\ nbad' = (IF PlyOk(Rd) THEN nbad ELSE nbad + 1) /\ UNCHANGED << lam, pts >>
Abort  == Rd.t = "end" /\ ~Bad(Rd, "completes-" \o Rd.how, 0, << >>, << >>) /\ nbad' = nbad + 1 /\ UNCHANGED << lam, pts >>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Define \/ Locate \/ Query \/ Ply \/ Abort) /\ TLCSet(1, nbad')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
