------------------------------- MODULE SumTrace -------------------------------
(* Trace of sums of functions, replayed on the model of spec/SumOps.tla.  The   *)
(* values of a term are recorded from the term itself; those of a sum must be   *)
(* their sum, over the terms the model says it stands for.                      *)
EXTENDS RealArith, Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, val, sums, nbad
vars == << l, val, sums, nbad >>
Rd == Trace[l]
Tol == RParse("1e-11")
Bad(r, law, want, got) == PrintT("BAD|" \o r.id \o "|" \o law \o "|" \o ToString(l) \o "|want " \o VStr(want) \o " got " \o VStr(got)) /\ FALSE
Is(r, law, cond) == IF cond THEN TRUE ELSE Bad(r, law, << >>, << >>)
Near(r, law, want, got, tol) == IF Len(want) = Len(got) /\ VClose(want, got, VMaxAbs(want), tol) THEN TRUE ELSE Bad(r, law, want, got)
RECURSIVE Sum(_, _, _)
\* values of the listed terms, added: p patch, k order of the derivatives
Sum(q, p, k) == IF Len(q) = 1 THEN val[q[1]][p][k] ELSE VAdd(val[q[1]][p][k], Sum(Tail(q), p, k))
Order == << "value", "derivative", "second-derivative" >>
AskOk(r) ==
  LET q == sums[r.i] IN
  /\ Is(r, "pieces", r.np = Len(val[q[1]]) /\ r.nf = Len(q) /\ r.dom = 2 /\ r.tar = r.d)
  /\ CASE r.w \in 0..2 -> \A p \in 1..r.np : Near(r, Order[r.w + 1], Sum(q, p, r.w + 1), r.v[p][1], Tol)
       [] r.w = 3 -> \A p \in 1..r.np : Is(r, "orders", Len(r.v[p]) = 3) /\ \A k \in 1..3 : Near(r, "all-" \o Order[k], Sum(q, p, k), r.v[p][k], Tol)
       \* seen through an assembler (4) or a material (5): as the geometry the terms add up to
       [] r.w = 4 -> \A k \in 1..Len(r.v) : Near(r, << "force", "tangent", "measure" >>[k], r.v[k][1], r.v[k][2], RParse("1e-9"))
       [] r.w = 5 -> \A k \in 1..Len(r.v) : Near(r, "material", r.v[k][1], r.v[k][2], RParse("1e-9"))
Init == l = 1 /\ val = << >> /\ sums = << >> /\ nbad = 0
Begin == Rd.t = "begin" /\ val' = << >> /\ sums' = << >> /\ nbad' = nbad
Term == Rd.t = "term" /\ val' = (IF Rd.k <= Len(val) THEN [val EXCEPT ![Rd.k] = Rd.v] ELSE Append(val, Rd.v)) /\ UNCHANGED << sums, nbad >>
Make == Rd.t = "new" /\ sums' = Append(sums, Rd.q) /\ UNCHANGED << val, nbad >>
Copy == Rd.t = "copy" /\ sums' = Append(sums, sums[Rd.i]) /\ UNCHANGED << val, nbad >>
Kill == Rd.t = "kill" /\ sums' = [sums EXCEPT ![Rd.i] = << >>] /\ UNCHANGED << val, nbad >>
Ask == Rd.t = "ask" /\ nbad' = (IF AskOk(Rd) THEN nbad ELSE nbad + 1) /\ UNCHANGED << val, sums >>
Abort == Rd.t = "end" /\ PrintT("BAD|" \o Rd.id \o "|completes-" \o Rd.how \o "|" \o ToString(l) \o "|" \o Rd.what) /\ nbad' = nbad + 1 /\ UNCHANGED << val, sums >>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Term \/ Make \/ Copy \/ Kill \/ Ask \/ Abort) /\ TLCSet(1, nbad')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
