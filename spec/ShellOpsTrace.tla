---------------------------- MODULE ShellOpsTrace ----------------------------
(* Validates recorded lives of shell assemblers against ShellOps: every         *)
(* recorded call must be a step of the specification, and every system an       *)
(* assembler delivered must be the one its current definition determines,       *)
(* which a newly built assembler of that definition provides.                   *)
EXTENDS ShellOps, RealArith, IOUtils
VARIABLES l, nbad
tvars == << l, nbad, objs, world, hist >>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Rd == Trace[l]
Tol == RParse("1e-9")
Bad(law, want, got) == PrintT("BAD|" \o Rd.id \o "|" \o law \o "|" \o ToString(l) \o "|" \o ToString(Rd.def) \o " want " \o VStr(want) \o " got " \o VStr(got)) /\ FALSE
Same(law, f, g, size) == IF Len(f) = Len(g) /\ VClose(f, g, size, Tol) THEN TRUE ELSE Bad(law, f, g)
Is(law, cond, want, got) == IF cond THEN TRUE ELSE Bad(law \o "-" \o want \o "-" \o got, << >>, << >>)
HasVec(k) == k \in {"lin", "vec", "vecn", "both", "bothu"}
HasMat(k) == k \in {"lin", "mat", "both", "bothu", "mass", "lump"}
Delivered(r) ==
  LET want == IF Fails(r.kind, objs[r.o]) THEN "error" ELSE "ok" IN
  /\ Is(r.kind \o "-status", r.got.status = want, want, r.got.status)
  /\ Is(r.kind \o "-told", r.got.told = r.got.status, r.got.status, r.got.told)
  /\ want = "ok" =>
       /\ Is(r.kind \o "-fresh", r.fresh.status = "ok", "ok", r.fresh.status)
       /\ Is(r.kind \o "-dofs", r.got.n = r.fresh.n, ToString(r.fresh.n), ToString(r.got.n))
       /\ (HasVec(r.kind) => /\ Is(r.kind \o "-rows", r.got.rows = r.fresh.rows, ToString(r.fresh.rows), ToString(r.got.rows))
                             /\ Same(r.kind \o "-rhs", r.fresh.vr, r.got.vr, r.fresh.rsize))
       /\ (HasMat(r.kind) => /\ Is(r.kind \o "-mrows", r.got.mrows = r.fresh.mrows, ToString(r.fresh.mrows), ToString(r.got.mrows))
                             /\ Same(r.kind \o "-matrix", r.fresh.vkw, r.got.vkw, r.fresh.msize))

TInit == l = 1 /\ nbad = 0 /\ objs = << >> /\ world = [d |-> 0] /\ hist = << >>
TStart == Rd.t = "start" /\ objs' = << Fresh >> /\ world' = [d |-> Rd.d, np |-> Rd.np] /\ hist' = << >> /\ nbad' = nbad
\* recorded steps, replayed by the actions of the specification
TSet == Rd.t = "set" /\ Rd.o \in Live /\ Rd.k \in Values(Rd.f) /\ Set(Rd.o, Rd.f, Rd.k, Rd.w) /\ nbad' = nbad
TCopy == Rd.t = "copy" /\ Rd.o \in Live /\ Copy(Rd.o) /\ nbad' = nbad
TAssign == Rd.t = "assign" /\ Rd.o \in Live /\ Rd.q \in Live /\ Assign(Rd.o, Rd.q) /\ nbad' = nbad
TMove == Rd.t = "move" /\ Rd.o \in Live /\ Move(Rd.o) /\ nbad' = nbad
TMoveTo == Rd.t = "moveto" /\ Rd.q \in Live /\ MoveTo(Rd.o, Rd.q) /\ nbad' = nbad
TAsk == Rd.t = "ask" /\ Ask(Rd.o, Rd.k) /\ nbad' = nbad
TAsm == Rd.t = "asm" /\ Rd.def = objs[Rd.o] /\ Assemble(Rd.o, Rd.kind, Rd.g) /\ nbad' = (IF Delivered(Rd) THEN nbad ELSE nbad + 1)
TEnd == Rd.t = "end" /\ PrintT("BAD|" \o Rd.id \o "|completes-" \o Rd.how \o "|" \o ToString(l) \o "|" \o Rd.what) /\ nbad' = nbad + 1 /\ UNCHANGED << objs, world, hist >>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ (TStart \/ TSet \/ TCopy \/ TAssign \/ TMove \/ TMoveTo \/ TAsk \/ TAsm \/ TEnd)
         /\ TLCSet(1, nbad')
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
