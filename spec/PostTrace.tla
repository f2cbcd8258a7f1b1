------------------------------ MODULE PostTrace ------------------------------
(* Trace of the questions asked to an assembler: every answer must be the      *)
(* measure of spec/Post.tla of the configuration it was asked for, and asking  *)
(* must leave the assembled system and the supports as they were.              *)
EXTENDS Post, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, P, cfg, nbad
vars == << l, P, cfg, nbad >>
None == [t |-> "none"]
Tol == RParse("1e-8")
Bad(r, law, want, got) == PrintT("BAD|" \o r.id \o "|" \o law \o "|" \o ToString(l) \o "|want " \o VStr(want) \o " got " \o VStr(got)) /\ FALSE
Near(r, law, want, got) == IF VClose(<< want[1] >>, << got >>, want[2], Tol) THEN TRUE ELSE Bad(r, law, want, << got >>)
Is(r, law, cond, got) == IF cond THEN TRUE ELSE Bad(r, law, << >>, got)
\* size of the structure, for quantities that vanish
Extent2 == Sq(VMaxAbs(Gather(LAMBDA k : VMaxAbs(cfg["ori"][k].x), 1, Len(cfg["ori"]))))
MaxE == VMaxAbs(Gather(LAMBDA i : VMaxAbs(P.mats[i].p0), 1, Len(P.mats)))
Tiny(w, s) == << w[1], RAdd(w[2], RMul(RParse("1e-12"), s)) >>
\* rounding of the stress of an unstrained state
Still(w) == << w[1], RAdd(w[2], RMul(RParse("1e-5"), MaxE)) >>
AnswerOk(r) ==
  LET c == cfg[r.cfg] o == cfg["ori"] IN
  CASE r.what \in {"area", "area0"} -> Near(r, "area", Area(P, c), r.r[1])
    [] r.what = "dnorm" -> Near(r, "displacement-norm", Tiny(<< RDiv(SqDist(P, o, c)[1], Area(P, o)[1]), Zero >>, Extent2), Sq(r.r[1]))
    [] r.what = "energy" -> Near(r, "energy", Still(Energy(P, o, c)), r.r[1])
    [] r.what = "defnorm" -> Near(r, "deformation-norm", SqSize(P, c, cfg[r.cfg2]), r.r[1])
    [] r.what = "force" -> /\ Is(r, "reaction-size", Len(r.r) = P.d, r.r)
                           /\ \A i \in 1..P.d : Near(r, "reaction", Still(Reaction(P, o, c, cfg[r.f \o ToString(i)])), r.r[i])
    [] r.what = "ifc0" -> Near(r, "interface-gap", Tiny(EdgeSum(P, r.on, LAMBDA k : Sq2(GapOf(c, k))), Extent2), Sq(r.r[1]))
    [] r.what = "ifg1" -> Near(r, "interface-kink", Tiny(EdgeSum(P, r.on, LAMBDA k : Sq2(TurnOf(c, k))), One), Sq(r.r[1]))
    [] r.what = "ifn" -> Near(r, "interface-normal", LET x == EdgeMax(P, r.on, LAMBDA k : LET n == Norm(TurnOf(c, k)) IN << n, n >>) IN << x[1], One >>, r.r[1])
    [] r.what = "ifk" -> Near(r, "interface-gauss", LET x == EdgeMax(P, r.on, LAMBDA k : Jump(GaussOf(c[k].s), GaussOf(c[k + 1].s))) IN << x[1], RAdd(One, x[2]) >>, r.r[1])
    [] r.what = "ifh" -> Near(r, "interface-mean", LET x == EdgeMax(P, r.on, LAMBDA k : Jump(MeanOf(c[k].s), MeanOf(c[k + 1].s))) IN << x[1], RAdd(One, x[2]) >>, r.r[1])
    [] r.what \in {"proj", "projm"} -> \A n \in {"v1", "v2"} : LET x == Orthogonal(P, o, cfg[r.f], r.aff, cfg[n]) IN Near(r, "projection", << Zero, x[2] >>, x[1])
AskOk(r) == /\ Is(r, r.what \o "-answers", r.ok, << >>)
            /\ Is(r, r.what \o "-keeps-state", RLeq(r.drift, RParse("1e-12")), << r.drift >>)
            /\ AnswerOk(r)
NoFun == [x \in {} |-> << >>]
Rd == Trace[l]
Init == l = 1 /\ P = None /\ cfg = NoFun /\ nbad = 0
Define == Rd.t = "prob" /\ P' = Rd /\ cfg' = NoFun /\ nbad' = nbad
Config == Rd.t \in {"cfg", "fld"} /\ cfg' = (Rd.n :> Rd.p) @@ cfg /\ UNCHANGED << P, nbad >>
Ask == Rd.t = "ask" /\ nbad' = (IF AskOk(Rd) THEN nbad ELSE nbad + 1) /\ UNCHANGED << P, cfg >>
Abort == Rd.t = "end" /\ PrintT("BAD|" \o Rd.id \o "|completes-" \o Rd.how \o "|" \o ToString(l) \o "|" \o Rd.what) /\ nbad' = nbad + 1 /\ UNCHANGED << P, cfg >>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Define \/ Config \/ Ask \/ Abort) /\ TLCSet(1, nbad')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
