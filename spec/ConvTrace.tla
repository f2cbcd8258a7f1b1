------------------------------ MODULE ConvTrace ------------------------------
(* Trace of conversions between solution vectors and geometries. The numbering *)
(* is the assembler's own business, but it has to be one: the first field seen *)
(* fixes which entry belongs to which unknown, and every later one agrees.     *)
EXTENDS Convert, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, P, L, num, nbad
vars == << l, P, L, num, nbad >>
None == [t |-> "none"]
Tol == RParse("1e-11")
Two == RI(2)
TolD == RParse("1e-8")
Bad(r, law, want, got) == PrintT("BAD|" \o r.id \o "|" \o law \o "|" \o ToString(l) \o "| want " \o VStr(want) \o " got " \o VStr(got)) /\ FALSE
Is(r, law, cond, got) == IF cond THEN TRUE ELSE Bad(r, law, << >>, got)
Eq(r, law, want, got, tol) == IF VClose(<< want >>, << got >>, Unity, tol) THEN TRUE ELSE Bad(r, law, << want >>, << got >>)
Rd == Trace[l]
Cps(P0, i, c) == P0.cps[i][c]
\* displacement part of the recorded field
Dis(r, c, i) == IF r.what = "sol" THEN RSub(r.f[c][i], Cps(P, i, c)) ELSE r.f[c][i]
\* entry of u the value of an unknown stems from (a label is one of its coefficients)
Number(r) == [c \in 1..P.d |-> [f \in L[c].free |-> VFind(r.u, Dis(r, c, f), Tol)]]
NumberOk(r, m) ==
  /\ Is(r, "every-unknown-has-its-entry", \A c \in 1..P.d : \A f \in L[c].free : m[c][f] > 0, r.u)
  /\ Is(r, "every-entry-is-used", UNION { { m[c][f] : f \in L[c].free } : c \in 1..P.d } = 1..Len(r.u), r.u)
Sized(r) == Is(r, "size", Len(r.f) = P.d /\ \A c \in 1..P.d : Len(r.f[c]) = Len(P.cps), << >>)
Clear == \A k \in 1..P.d : L[k].clear
\* what the displacement coefficients of component c should be
Want(r, m, c) == [i \in All(P) |-> LET f == L[c].lab[i] IN IF f \in L[c].free THEN r.u[m[c][f]] ELSE IF r.what = "map" THEN Two ELSE IF Clear THEN L[c].val[f] ELSE Dis(r, c, f)]
FieldOk(r, m) ==
  \A c \in 1..P.d : LET w == Want(r, m, c) got == [i \in All(P) |-> Dis(r, c, i)] IN
    \/ VClose(w, got, Unity, Tol)
    \/ \A i \in All(P) : LET law == r.what \o (IF L[c].lab[i] \in L[c].free THEN "-free" ELSE IF Clear THEN "-prescribed" ELSE "-tied") IN
         Eq(r, law, w[i], got[i], IF L[c].lab[i] \in L[c].free THEN Tol ELSE TolD)
Define == Rd.t = "prob" /\ P' = Rd /\ L' = Layouts(Rd) /\ num' = << >>
          /\ nbad' = (IF Is(Rd, "count", Rd.n = Unknowns(L'), << RI(Rd.n), RI(Unknowns(L')) >>) THEN nbad ELSE nbad + 1)
Field == Rd.t = "op" /\ Rd.what # "back" /\
  LET ok0 == Sized(Rd) /\ Is(Rd, "count", Len(Rd.u) = Unknowns(L), << >>)
      m == IF ok0 /\ num = << >> THEN Number(Rd) ELSE num
      ok == ok0 /\ (num # << >> \/ NumberOk(Rd, m)) /\ FieldOk(Rd, m)
  IN num' = (IF ok THEN m ELSE num) /\ nbad' = (IF ok THEN nbad ELSE nbad + 1) /\ UNCHANGED << P, L >>
Back == Rd.t = "op" /\ Rd.what = "back"
  /\ nbad' = (IF Is(Rd, "back-size", Len(Rd.f[1]) = Len(Rd.u), Rd.u) /\ \A k \in 1..Len(Rd.u) : Eq(Rd, "back", Rd.u[k], Rd.f[1][k], Tol) THEN nbad ELSE nbad + 1) /\ UNCHANGED << P, L, num >>
Abort == Rd.t = "end" /\ PrintT("BAD|" \o Rd.id \o "|completes-" \o Rd.how \o "|" \o ToString(l) \o "|" \o Rd.what) /\ nbad' = nbad + 1 /\ UNCHANGED << P, L, num >>
Init == l = 1 /\ P = None /\ L = << >> /\ num = << >> /\ nbad = 0
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Define \/ Field \/ Back \/ Abort) /\ TLCSet(1, nbad')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
