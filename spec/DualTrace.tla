------------------------------ MODULE DualTrace ------------------------------
(* Trace of a goal-oriented assembler: every answer must be the quantity of    *)
(* spec/Dual.tla on the space it was asked for, and asking must not change the *)
(* spaces.                                                                     *)
EXTENDS Dual, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, Pr, rule, els, fld, nbad
vars == << l, Pr, rule, els, fld, nbad >>
None == [t |-> "none"]
Tol == RParse("1e-8")
TolF == RParse("1e-6")      \* where the specification differentiates numerically
TolP == RParse("3e-5")      \* places given in physical coordinates (inverted to 1e-6 by the core)
Bad(r, law, want, got) == PrintT("BAD|" \o r.id \o "|" \o law \o "|" \o ToString(l) \o "|want " \o VStr(want) \o " got " \o VStr(got)) /\ FALSE
Near(r, law, want, got, tol) == IF VClose(<< want[1] >>, << got >>, want[2], tol) THEN TRUE ELSE Bad(r, law, want, << got >>)
Is(r, law, cond, got) == IF cond THEN TRUE ELSE Bad(r, law, << >>, got)
TolK == IF Pr.mats[1].law = "OG" THEN TolF ELSE Tol      \* spectral form at equal stretches
At(n) == Pr @@ [pts |-> rule[n]]
Plus(a, b) == VAdd(a, b)
Mstr(w) == << w[1], RAdd(w[2], RMul(RParse("1e-5"), VMaxAbs(Pr.mats[1].p0))) >>      \* rounding of the stress of an unstrained state
Still(goal, w) == IF goal \in {"mstress", "pstress", "mforce", "fstress", "fmoment"} THEN Mstr(w) ELSE << w[1], RAdd(w[2], RParse("1e-6")) >>
PTol == IF Pr.inv THEN TolP ELSE Tol
Principal(goal) == goal \in {"stretch", "pstrain", "pstress"}
GoalOk(r) ==
  LET n == IF r.place = "pts" THEN "X" ELSE "G" F == fld[n]
      w == Still(r.goal, GoalValue(At(n), r.goal, r.comp, r.place, r.bnds, F["ori"], F[r.cfg]))
      \* where principal values coincide they are known to the square root of the rounding only
      loose == Principal(r.goal) /\ ~Apart(At(n), r.goal, r.place, r.bnds, F["ori"], F[r.cfg])
  IN Near(r, "goal-" \o r.place \o "-" \o r.goal \o (IF r.comp = 9 THEN "-norm" ELSE ""),
          IF loose THEN << w[1], RAdd(w[2], RMul(RI(10), IF r.goal = "pstress" THEN VMaxAbs(Pr.mats[1].p0) ELSE One)) >> ELSE w, r.r[1], Tol)
DualOk(r) ==
  LET sp == IF r.h THEN "H" ELSE "L" n == IF r.place = "pts" THEN "X" ELSE sp F == fld[n]
      V(i) == F[IF r.place = "pts" THEN "v" \o sp \o ToString(i) ELSE "v" \o ToString(i)]
  IN (Principal(r.goal) => Apart(At(n), r.goal, r.place, r.bnds, F["ori"], F[r.cfg])) =>
     \A i \in 1..2 : Near(r, "dual-" \o r.place \o "-" \o r.goal \o (IF r.comp = 9 THEN "-norm" ELSE ""),
                          Still(r.goal, GoalSlope(At(n), r.goal, r.comp, r.place, r.bnds, F["ori"], F[r.cfg], V(i))), r.r[i], TolF)
OperatorOk(r) ==
  LET n == IF r.h THEN "H" ELSE "L" F == fld[n] P == At(n) o == F["ori"] c == F[r.cfg]
      K == LinearForm(P, o, Rates(P, o, o, F["v2"]), F["v1"], F["v2"])
      Lift == IF \E i \in 1..Len(P.sides) : P.sides[i].type = "D" THEN LinearForm(P, o, Rates(P, o, o, F["dir"]), F["v1"], F["dir"]) ELSE ZW
      Rhs == LET w == LoadWork(P, o, o, F["v1"]) IN << RSub(w[1], Lift[1]), RAdd(w[2], Lift[2]) >>
  IN CASE r.what = "lin" -> Near(r, "stiffness", K, r.r[1], TolK) /\ Near(r, "load", Rhs, r.r[2], PTol)
       [] r.what = "linm" -> Near(r, "stiffness", K, r.r[1], TolK)
       [] r.what = "linp" -> Near(r, "load", Rhs, r.r[1], PTol)
       [] r.what = "tan" -> Near(r, "tangent", Mstr(TangentForm(P, o, c, Sections(P, o, c), Rates(P, o, c, F["v2"]), F["v1"], F["v2"])), r.r[1], TolF)
       [] r.what = "res" -> Near(r, "residual", Mstr(ResidualWork(P, o, c, Sections(P, o, c), F["v1"])), r.r[1], PTol)
       [] r.what = "mass" -> Near(r, "mass", MassForm(P, o, F["v1"], F["v2"]), r.r[1], Tol)
       [] r.what = "lump" -> Is(r, "lumped-mass", RLeq(r.r[1], RParse("1e-10")), r.r)
Elements == Len(els)
\* element e (from 0) holds the place of a point load
Slack == RParse("1e-4")
Holds(e, q) == LET b == els[e + 1].box IN /\ q.k = "p" /\ q.patch = els[e + 1].patch
  /\ RLeq(RSub(b[1], Slack), q.u[1]) /\ RLeq(q.u[1], RAdd(b[2], Slack)) /\ RLeq(RSub(b[3], Slack), q.u[2]) /\ RLeq(q.u[2], RAdd(b[4], Slack))
Loaded(P) == Len(P.pl) > 0 \/ \E i \in 1..Len(P.sides) : P.sides[i].type = "N"
Rough(sq, x) == IF sq THEN << x[1], RAdd(x[2], Sq(RMul(RParse("1e-5"), VMaxAbs(Pr.mats[1].p0)))) >> ELSE Mstr(x)
\* estimate of the duals named zl and zh: nl nonlinear, sq squared, one element (from 0) or all (-1); without the loads on edges and in points
DomainEst(nl, sq, el, cfg, zl, zh) == LET F == fld["G"] x == DomainPart(At("G"), nl, sq, el, F["ori"], F[cfg], F[zl], F[zh]) IN IF nl THEN Rough(sq, x) ELSE x
PointEst(zl, zh) == LET F == fld["G"] IN PointPart(At("G"), F[zl], F[zh])
EdgeEst(zl, zh) == LET F == fld["G"] IN EdgePart(At("G"), F["ori"], F[zl], F[zh])
ElementsOk(r, law, nl, sq, zl, zh, total, el, tol) ==
  LET want == Plus(DomainEst(nl, sq, -1, r.cfg, zl, zh), PointEst(zl, zh)) P == At("G") IN
       /\ Is(r, law \o "-elements", Len(el) = Elements, << RI(Len(el)) >>)
       /\ Near(r, law \o "-sum", << total, want[2] >>, VSum(el), tol)
       /\ Near(r, law \o "-of-elements", want, total, RMax(tol, PTol))
       /\ \A e \in 0..Elements - 1 : (\A k \in 1..Len(P.pts) : ~Holds(e, P.pts[k])) => Near(r, law \o "-of-element", DomainEst(nl, sq, e, r.cfg, zl, zh), el[e + 1], tol)
ErrorOk(r) ==
  LET sq == r.what \in {"sqerr", "sqerrel"}
      law == (IF sq THEN "squared-" ELSE "") \o (IF r.h THEN "residual-" ELSE "load-") \o "estimate"
  IN IF sq /\ Loaded(At("G")) THEN TRUE      \* the square of a load at a point or along an edge is not defined
     ELSE IF r.what \in {"err", "sqerr"} THEN Near(r, law, Plus(DomainEst(r.h, sq, -1, r.cfg, "zL", "zH"), Plus(PointEst("zL", "zH"), EdgeEst("zL", "zH"))), r.r[1], PTol)
     ELSE ElementsOk(r, law, r.h, sq, "zL", "zH", r.r[1], r.el, Tol)
\* the duals of a goal: the tangent maps them to the derivative of the goal (of the sum, when it is asked for over several places)
Places(r) == IF r.place = "all" THEN {"dom", "bnd", "pts"} ELSE {r.place}
Slope(r, n, p) ==
  IF p = "pts" THEN GoalSlope(At("X"), r.goal, r.comp, p, r.bnds, fld["X"]["ori"], fld["X"][r.cfg], fld["X"]["v" \o n \o "1"])
  ELSE GoalSlope(At(n), r.goal, r.comp, p, r.bnds, fld[n]["ori"], fld[n][r.cfg], fld[n]["v1"])
SlopeOf(r, n) == LET S(p) == IF p \in Places(r) THEN Slope(r, n, p) ELSE ZW IN Plus(S("dom"), Plus(S("bnd"), S("pts")))
ApartAll(r) == Principal(r.goal) => \A p \in Places(r) : LET n == IF p = "pts" THEN "X" ELSE "H" IN Apart(At(n), r.goal, p, r.bnds, fld[n]["ori"], fld[n][r.cfg])
DualEq(r, n, z) ==
  LET F == fld[n] P == At(n) o == F["ori"] c == F[r.cfg]
      K == TangentForm(P, o, c, Sections(P, o, c), Rates(P, o, c, F[z]), F["v1"], F[z])
      D == SlopeOf(r, n)
  IN Near(r, "dual-equation-" \o n, << D[1], RAdd(D[2], K[2]) >>, K[1], RParse("1e-5"))
Same(r, law, a, b) == Is(r, law, Len(a) = Len(b) /\ \A i \in 1..Len(a) : RLeq(RAbs(RSub(a[i], b[i])), RMul(RParse("1e-10"), RAbs(a[i]))), b)
HelpOk(r) ==
  LET T == RParse("1e-5")
      loads == Plus(PointEst("hL", "hH"), EdgeEst("hL", "hH"))
      all == Plus(DomainEst(TRUE, FALSE, -1, r.cfg, "hL", "hH"), loads)
      e == r.r[1] n == Len(r.el)
  IN /\ (ApartAll(r) => DualEq(r, "L", "hL") /\ DualEq(r, "H", "hH"))
     /\ Near(r, "helper-estimate", all, e, T)
     /\ ElementsOk(r, "helper", TRUE, FALSE, "hL", "hH", IF Loaded(At("G")) THEN VSum(r.el) ELSE e, r.el, T)
     /\ Same(r, "helper-absolute", MapTo(LAMBDA i : RAbs(r.el[i]), 1, n), r.ab)
     /\ Same(r, "helper-normalised", MapTo(LAMBDA i : RDiv(RAbs(r.el[i]), RAbs(e)), 1, n), r.nr)
     /\ Same(r, "helper-absolute-normalised", r.nr, r.an)
     /\ Same(r, "helper-squares-normalised", MapTo(LAMBDA i : RDiv(RAbs(r.sq[i]), Sq(e)), 1, n), r.sn)
     /\ (~Loaded(At("G")) => \A i \in 1..n : Near(r, "helper-square", DomainEst(TRUE, TRUE, i - 1, r.cfg, "hL", "hH"), r.sq[i], T))
EigOk(r) ==
  LET P == At("G") F == fld["G"] o == F["ori"] c == F[r.cfg] b == r.what \in {"buckl", "buckel", "bnorm"}
      dl == RSub(r.ev[3], r.ev[2])
      E(el) == EigSum(P, b, el, r.ev, o, c, F["zL"], F["zH"], F["u"])
      law == IF b THEN "buckling" ELSE "modal"
      tot == LET e == E(-1) IN << RSub(e[1], dl), RAdd(e[2], RAbs(dl)) >>
  IN CASE r.what \in {"mnorm", "bnorm"} -> Near(r, law \o "-norm", NormSum(P, b, o, c, F["u"], F["zH"]), r.r[1], TolF)
       [] r.what \in {"modal", "buckl"} -> Near(r, law \o "-estimate", tot, r.r[1], TolF)
       [] OTHER -> /\ Is(r, law \o "-elements", Len(r.el) = Elements, << RI(Len(r.el)) >>)
                   /\ Near(r, law \o "-estimate", tot, r.r[1], TolF)
                   /\ \A e \in 0..Elements - 1 : Near(r, law \o "-of-element", E(e), r.el[e + 1], TolF)
AskOk(r) ==
  /\ Is(r, r.what \o "-answers", r.ok, << >>)
  /\ Is(r, r.what \o "-keeps-state", RLeq(r.drift, RParse("1e-12")), << r.drift >>)
  /\ CASE r.what = "goal" -> GoalOk(r)
       [] r.what = "dual" -> DualOk(r)
       [] r.what \in {"lin", "linm", "linp", "tan", "res", "mass", "lump"} -> OperatorOk(r)
       [] r.what \in {"err", "errel", "sqerr", "sqerrel"} -> ErrorOk(r)
       [] r.what = "skip" -> TRUE
       [] r.what = "help" -> HelpOk(r)
       [] OTHER -> EigOk(r)
NoFun == [x \in {} |-> << >>]
Rd == Trace[l]
Init == l = 1 /\ Pr = None /\ rule = NoFun /\ els = << >> /\ fld = NoFun /\ nbad = 0
Define == Rd.t = "prob" /\ Pr' = Rd /\ rule' = NoFun /\ els' = << >> /\ fld' = NoFun /\ nbad' = nbad
Measure == Rd.t = "rule" /\ rule' = (Rd.r :> Rd.pts) @@ rule /\ els' = (IF Rd.r = "G" THEN Rd.els ELSE els) /\ fld' = (Rd.r :> NoFun) @@ fld /\ UNCHANGED << Pr, nbad >>
Field == Rd.t = "fld" /\ fld' = [fld EXCEPT ![Rd.r] = (Rd.n :> Rd.p) @@ @] /\ UNCHANGED << Pr, rule, els, nbad >>
Ask == Rd.t = "ask" /\ nbad' = (IF AskOk(Rd) THEN nbad ELSE nbad + 1) /\ UNCHANGED << Pr, rule, els, fld >>
Abort == Rd.t = "end" /\ PrintT("BAD|" \o Rd.id \o "|completes-" \o Rd.how \o "|" \o ToString(l) \o "|" \o Rd.what) /\ nbad' = nbad + 1 /\ UNCHANGED << Pr, rule, els, fld >>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Define \/ Measure \/ Field \/ Ask \/ Abort) /\ TLCSet(1, nbad')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
