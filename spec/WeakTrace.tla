------------------------------ MODULE WeakTrace ------------------------------
(* Trace of what weak conditions add to the systems of an assembler: the       *)
(* difference between the systems with and without them, probed with virtual   *)
(* fields, must be minus the gradient and the Hessian of the penalty energy.   *)
EXTENDS Weak, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, P, cfg, fld, memo, nbad
vars == << l, P, cfg, fld, memo, nbad >>
None == [t |-> "none"]
Tol == RParse("1e-7")
TolK == RParse("2e-6")
Noise == RParse("1e-9")
Bad(r, law, want, got) == PrintT("BAD|" \o r.id \o "|" \o law \o "|" \o ToString(l) \o "|" \o r.cfg \o " want " \o VStr(want) \o " got " \o VStr(got)) /\ FALSE
\* want: <<value, size>>; base: size of the system the difference was taken from
Near(r, law, want, got, base, tol) ==
  IF VClose(<< want[1] >>, << got >>, RAdd(want[2], RMul(RDiv(Noise, tol), base)), tol) THEN TRUE ELSE Bad(r, law, want, << got >>)
Is(r, law, cond, got) == IF cond THEN TRUE ELSE Bad(r, law, << >>, got)
Ori == cfg["ori"]
\* what is remembered per configuration: states and first variations
Vs == << "v1", "v2", "v3", "dir" >>
At(c) == LET st == States(P, Ori, cfg[c]) IN
  [st |-> st, d |-> Gather(LAMBDA i : Firsts(P, Ori, cfg[c], fld[Vs[i]]), 1, IF c = "ori" THEN 4 ELSE 3)]
Form(m, c, i, j) == Hold(P, Ori, cfg[c], m.st, m.d[i], m.d[j], fld[Vs[i]], fld[Vs[j]])
Vec(m, i) == Push(m.st, m.d[i])
LinVec(m, i) == LET h == Form(m, "ori", i, 4) IN VAdd(Vec(m, i), << RNeg(h[1]), h[2] >>)
VecOk(r, F(_)) == \A i \in 1..3 : Near(r, r.kind \o "-force", F(i), r.vr[i], r.vbase, Tol)
MatOk(r, m) ==
  /\ Near(r, r.kind \o "-stiffness", Form(m, r.cfg, 1, 2), r.vkw[1], r.kbase, TolK)
  /\ Near(r, r.kind \o "-stiffness", Form(m, r.cfg, 1, 2), r.vkw[2], r.kbase, TolK)
  /\ Near(r, r.kind \o "-stiffness", Form(m, r.cfg, 1, 1), r.vkw[3], r.kbase, TolK)
  /\ Near(r, r.kind \o "-stiffness", Form(m, r.cfg, 3, 2), r.vkw[4], r.kbase, TolK)
AsmOk(r, m) ==
  /\ Is(r, r.kind \o "-status", r.status = "ok", << >>)
  /\ CASE r.kind = "lin" -> VecOk(r, LAMBDA i : LinVec(m, i)) /\ MatOk(r, m)
       [] r.kind = "vec" -> VecOk(r, LAMBDA i : Vec(m, i))
       [] r.kind = "mat" -> MatOk(r, m)
NoFun == [x \in {} |-> << >>]
Rd == Trace[l]
Init == l = 1 /\ P = None /\ cfg = NoFun /\ fld = NoFun /\ memo = NoFun /\ nbad = 0
Define == Rd.t = "prob" /\ P' = Rd /\ cfg' = NoFun /\ fld' = NoFun /\ memo' = NoFun /\ nbad' = nbad
Config == Rd.t = "cfg" /\ cfg' = (Rd.n :> Rd.p) @@ cfg /\ memo' = NoFun /\ UNCHANGED << P, fld, nbad >>
Virtual == Rd.t = "fld" /\ fld' = (Rd.n :> Rd.p) @@ fld /\ memo' = NoFun /\ UNCHANGED << P, cfg, nbad >>
Assemble == Rd.t = "asm" /\ memo' = (IF Rd.cfg \in DOMAIN memo THEN memo ELSE (Rd.cfg :> At(Rd.cfg)) @@ memo)
            /\ nbad' = (IF AsmOk(Rd, memo'[Rd.cfg]) THEN nbad ELSE nbad + 1) /\ UNCHANGED << P, cfg, fld >>
Abort == Rd.t = "end" /\ PrintT("BAD|" \o Rd.id \o "|completes-" \o Rd.how \o "|" \o ToString(l) \o "|" \o Rd.what) /\ nbad' = nbad + 1 /\ UNCHANGED << P, cfg, fld, memo >>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Define \/ Config \/ Virtual \/ Assemble \/ Abort) /\ TLCSet(1, nbad')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
