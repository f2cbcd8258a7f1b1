------------------------------ MODULE ShellTrace ------------------------------
(* Consumes a trace recorded from the shell assembler: Define (prob), the     *)
(* configurations and virtual fields at the quadrature points, and one         *)
(* Assemble step per delivered system.  An Assemble step is a behaviour of     *)
(* the specification iff the delivered system, probed with the virtual         *)
(* fields, does the work spec/Shell.tla says.                                  *)
EXTENDS Shell, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, P, cfg, fld, memo, nbad
vars == << l, P, cfg, fld, memo, nbad >>
None == [t |-> "none"]
\* places given in physical coordinates are found by the core's iteration, to about 1e-6
Tol == IF P.inv THEN RParse("3e-5") ELSE RParse("1e-7")
TolK == IF P.inv THEN RParse("3e-5") ELSE RParse("2e-6")

Bad(r, law, want, got) == PrintT("BAD|" \o r.id \o "|" \o law \o "|" \o ToString(l) \o "|want " \o VStr(want) \o " got " \o VStr(got)) /\ FALSE
Near(r, law, want, got, tol) ==      \* want: <<value, size>>
  IF VClose(<< want[1] >>, << got >>, want[2], tol) THEN TRUE ELSE Bad(r, law, want, << got >>)
Is(r, law, cond, got) == IF cond THEN TRUE ELSE Bad(r, law, << >>, got)

Vs == << "v1", "v2", "v3" >>
Ori == cfg["ori"]
\* ------------------------------------------------------------ expected values
Secs(c) == Sections(P, Ori, cfg[c])
WantVec(c) == LET s == Secs(c) IN Gather(LAMBDA i : ResidualWork(P, Ori, cfg[c], s, fld[Vs[i]]), 1, 3)
\* probes v1'K v2, v1'K v1, v3'K v2
WantMat(c) ==
  LET s == Secs(c)
      r1 == Rates(P, Ori, cfg[c], fld["v1"])
      r2 == Rates(P, Ori, cfg[c], fld["v2"])
      F(v, r, w) == TangentForm(P, Ori, cfg[c], s, r, fld[v], fld[w])
  IN << F("v1", r2, "v2"), F("v2", r1, "v1"), F("v1", r1, "v1"), F("v3", r2, "v2") >>
\* the tangent of a Newton step with mixed integration points: strains and material tensors of the current
\* configuration, forces of the previous one extended linearly along the update
WantMix(c) ==
  LET s0 == Secs("prev")
      ds == Rates(P, Ori, cfg["prev"], fld["du"])
      s == Gather(LAMBDA k : IF P.pts[k].k # "d" THEN << >> ELSE << VAdd(s0[k][1], ds[k][1]), VAdd(s0[k][2], ds[k][2]) >>, 1, Len(P.pts))
      r1 == Rates(P, Ori, cfg[c], fld["v1"])
      r2 == Rates(P, Ori, cfg[c], fld["v2"])
      F(v, r, w) == TangentForm(P, Ori, cfg[c], s, r, fld[v], fld[w])
  IN << F("v1", r2, "v2"), F("v2", r1, "v1"), F("v1", r1, "v1"), F("v3", r2, "v2") >>
WantLin ==
  LET r1 == Rates(P, Ori, Ori, fld["v1"])
      r2 == Rates(P, Ori, Ori, fld["v2"])
      rd == Rates(P, Ori, Ori, fld["dir"])
      F(v, r, w) == LinearForm(P, Ori, r, fld[v], fld[w])
      neg(x) == << RNeg(x[1]), x[2] >>
  IN << << F("v1", r2, "v2"), F("v2", r1, "v1"), F("v1", r1, "v1"), F("v3", r2, "v2") >>,
        Gather(LAMBDA i : VAdd(LoadWork(P, Ori, Ori, fld[Vs[i]]), neg(F(Vs[i], rd, "dir"))), 1, 3) >>
WantMass ==
  LET F(v, w) == MassForm(P, Ori, fld[v], fld[w]) IN << F("v1", "v2"), F("v2", "v1"), F("v1", "v1"), F("v3", "v2") >>
Needs(r) ==   \* the expectations a record is compared with
  CASE r.kind = "lin" -> {<< "lin", "ori" >>}
    [] r.kind = "vec" -> {<< "vec", r.cfg >>}
    [] r.kind = "mat" -> {<< "mat", r.cfg >>}
    [] r.kind = "mix" -> {<< "mix", r.cfg >>}
    [] r.kind = "both" -> {<< "vec", r.cfg >>, << "mat", r.cfg >>}
    [] r.kind = "der" -> {<< "mat", r.cfg >>}
    [] r.kind \in {"mass", "lump"} -> {<< "mass", "ori" >>}
    [] OTHER -> {}
Expect(k) == CASE k[1] = "lin" -> WantLin [] k[1] = "vec" -> WantVec(k[2]) [] k[1] = "mat" -> WantMat(k[2]) [] k[1] = "mix" -> WantMix(k[2]) [] k[1] = "mass" -> WantMass
Known(r) == LET new == Needs(r) \ DOMAIN memo IN memo @@ [k \in new |-> Expect(k)]

\* ------------------------------------------------------------ laws
\* number of unknowns: size of vectors and matrices
VecOk(r, want) ==
  /\ Is(r, r.kind \o "-size", r.rows = r.n, << RI(r.rows), RI(r.n) >>)
  /\ \A i \in 1..3 : Near(r, r.kind \o "-work", want[i], r.vr[i], Tol)
MatOk(r, want, sym) ==
  /\ Is(r, r.kind \o "-msize", r.mrows = r.n, << RI(r.mrows), RI(r.n) >>)
  /\ \A i \in 1..4 : Near(r, r.kind \o "-form", want[i], r.vkw[i], TolK)
  /\ (sym => Near(r, r.kind \o "-symmetric", << r.vkw[1], want[1][2] >>, r.vkw[2], RParse("1e-9")))
Follower == P.press.on /\ P.d = 3
\* derivative of the residual from four samples
Deriv(r) == RDiv(RSub(RMul(RI(8), RSub(r.R[3], r.R[2])), RSub(r.R[4], r.R[1])), RMul(RI(12), r.h))
AllLin == \A p \in 1..Len(P.mats) : Lin(P.mats[p])
\* The strain of the hyperelastic laws is taken linear over the thickness in the
\* tangent: an error of the order (thickness x curvature)^2.  Without bending the
\* tangent has no curvature strain, while the membrane force is still integrated
\* over the curved thickness: an error of the order thickness x curvature.
RECURSIVE MaxOf(_, _, _)
MaxOf(F(_), i, n) == IF i > n THEN Zero ELSE RMax(F(i), MaxOf(F, i + 1, n))
Steep(k, c) ==
  LET o == Ori[k].s q == cfg[c][k].s t == MThick(P.mats[P.pts[k].patch], Ori[k].x)
      B(s) == RMul(VMaxAbs(Curv(s)), VMaxAbs(Inv2(Metric(s))))
  IN IF P.pts[k].k # "d" THEN Zero ELSE RMul(t, RMax(B(o), B(q)))
DerTol(c) ==
  IF AllLin \/ P.d = 2 THEN RParse("1e-6")
  ELSE LET k == MaxOf(LAMBDA i : Steep(i, c), 1, Len(P.pts)) IN RAdd(RParse("1e-6"), IF P.bend THEN Sq(k) ELSE RMul(Half, k))
\* a load assembled on its own adds exactly its own work to the system at hand, or its own stiffness
Pairs == << << "v1", "v2" >>, << "v2", "v1" >>, << "v1", "v1" >>, << "v3", "v2" >> >>
OwnVec(r) ==
  \A i \in 1..3 :
    LET w == IF r.kind = "pvec" THEN PressOnly(P, r.load, Ori, cfg[r.cfg], fld[Vs[i]]) ELSE FoundOnly(P, r.load, Ori, cfg[r.cfg], fld[Vs[i]])
    IN Near(r, r.kind \o "-work", << w[1], RMax(w[2], RMul(RParse("1e-5"), r.base[i])) >>, r.vr[i], Tol)
OwnMat(r) ==
  /\ Is(r, r.kind \o "-msize", r.mrows = r.n, << RI(r.mrows), RI(r.n) >>)
  /\ \A i \in 1..4 :
       LET v == fld[Pairs[i][1]] w == fld[Pairs[i][2]]
           e == CASE r.kind = "pmat" -> PressStiff(P, r.load, Ori, cfg[r.cfg], v, w)
                  [] r.kind = "fmat" -> FoundStiff(P, r.load, Ori, v, w)
                  [] r.kind = "pmat0" -> ZW        \* the linear system has none
       IN Near(r, r.kind \o "-form", << e[1], RMax(e[2], RMul(RParse("1e-5"), r.base[i])) >>, r.vkw[i], TolK)
AsmOk(r, m) ==
  /\ Is(r, r.kind \o "-status", r.status = "ok", << >>)
  /\ CASE r.kind = "lin" -> VecOk(r, m[<< "lin", "ori" >>][2]) /\ MatOk(r, m[<< "lin", "ori" >>][1], TRUE)
       [] r.kind = "vec" -> VecOk(r, m[<< "vec", r.cfg >>])
       [] r.kind = "mat" -> MatOk(r, m[<< "mat", r.cfg >>], ~Follower)
       [] r.kind = "mix" -> MatOk(r, m[<< "mix", r.cfg >>], ~Follower)
       [] r.kind = "both" -> VecOk(r, m[<< "vec", r.cfg >>]) /\ MatOk(r, m[<< "mat", r.cfg >>], ~Follower)
       [] r.kind = "der" -> LET w == m[<< "mat", r.cfg >>][1] IN Near(r, "derivative", << RNeg(w[1]), w[2] >>, Deriv(r), DerTol(r.cfg))
       [] r.kind = "mass" -> MatOk(r, m[<< "mass", "ori" >>], TRUE)
       [] r.kind \in {"pvec", "fvec"} -> OwnVec(r)
       [] r.kind \in {"pmat", "pmat0", "fmat"} -> OwnMat(r)
       [] r.kind = "lump" ->
            /\ Is(r, "lump-msize", r.mrows = r.n, << RI(r.mrows) >>)
            /\ Is(r, "lump-diagonal", RLeq(r.off, RMul(RParse("1e-12"), r.dia)), << r.off >>)
            /\ \A i \in 1..3 : Near(r, "lump-rowsum", << r.row1[i], r.row1[4] >>, r.v1[i], RParse("1e-10"))

\* ------------------------------------------------------------ steps
NoFun == [x \in {} |-> << >>]
Rd == Trace[l]
Init == l = 1 /\ P = None /\ cfg = NoFun /\ fld = NoFun /\ memo = NoFun /\ nbad = 0
Define == Rd.t = "prob" /\ P' = Rd /\ cfg' = NoFun /\ fld' = NoFun /\ memo' = NoFun /\ nbad' = nbad
Config == Rd.t = "cfg" /\ cfg' = (Rd.n :> Rd.p) @@ cfg /\ memo' = NoFun /\ UNCHANGED << P, fld, nbad >>
Virtual == Rd.t = "fld" /\ fld' = (Rd.n :> Rd.p) @@ fld /\ memo' = NoFun /\ UNCHANGED << P, cfg, nbad >>
Assemble == Rd.t = "asm" /\ memo' = Known(Rd) /\ nbad' = (IF AsmOk(Rd, memo') THEN nbad ELSE nbad + 1) /\ UNCHANGED << P, cfg, fld >>
Abort == Rd.t = "end" /\ ~Bad(Rd, "completes-" \o Rd.how, << >>, << >>) /\ nbad' = nbad + 1 /\ UNCHANGED << P, cfg, fld, memo >>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Define \/ Config \/ Virtual \/ Assemble \/ Abort) /\ TLCSet(1, nbad')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
