------------------------------ MODULE SpaceTrace ------------------------------
(* Trace of assemblers over given functions, replayed on spec/SpaceOps.tla.     *)
(* A space is a list of functions, each a combination of the functions of the   *)
(* pieces (its column), and the list of its unknowns: the (function, component) *)
(* pairs each of them stands for.  Whatever the unknowns are, the virtual work  *)
(* is that of the field they describe: a vector delivered over a space is the   *)
(* one of the pieces seen through the columns, and so is a matrix.              *)
EXTENDS RealArith, Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sps, sp, on, nbad
vars == << l, sps, sp, on, nbad >>
Rd == Trace[l]
Bad(r, law, want, got) == PrintT("BAD|" \o r.id \o "|" \o law \o "|" \o ToString(l) \o "|want " \o VStr(want) \o " got " \o VStr(got)) /\ FALSE
Is(r, law, cond) == IF cond THEN TRUE ELSE Bad(r, law, << >>, << >>)
Near(r, law, want, got, scale, tol) == IF Len(want) = Len(got) /\ VClose(want, got, scale, tol) THEN TRUE ELSE Bad(r, law, want, got)
RECURSIVE Work(_, _, _, _)
\* work of the pairs of one unknown: x[c] the work of the functions of the pieces in component c
Work(S, q, x, k) == IF k > Len(q) THEN RI(0) ELSE RAdd(VDot(S.col[q[k][1]], x[q[k][2]]), Work(S, q, x, k + 1))
Through(S, x) == [j \in 1..Len(S.free) |-> Work(S, S.free[j], x, 1)]
\* coefficients of the pieces, component c, of the field with unknowns u: entry of row[i] are the weights of the functions in piece function i
Coef(S, u, c) == LET gl == [g \in 1..Len(S.col) |-> LET js == { j \in 1..Len(S.free) : \E k \in DOMAIN S.free[j] : S.free[j][k] = << g, c >> } IN IF js = {} THEN RI(0) ELSE u[CHOOSE j \in js : TRUE]]
                 IN [i \in 1..Len(S.row) |-> VDot(S.row[i], gl)]
AllCoef(S, u, c) == LET gl == [g \in 1..Len(S.col) |-> LET js == { j \in 1..Len(S.free) : \E k \in DOMAIN S.free[j] : S.free[j][k] = << g, c >> } IN IF js = {} THEN RI(0) ELSE u[CHOOSE j \in js : TRUE]] IN gl
Scale(x) == LET m == [c \in DOMAIN x |-> VMaxAbs(x[c])] IN VMaxAbs(m)
Tol == RParse("1e-9")
AskOk(r) ==
  LET S == sps[sp[r.o]] IN
  /\ Is(r, "unknowns", r.n = Len(S.free))
  /\ IF r.n # Len(S.free) THEN TRUE ELSE
     CASE r.w \in {"disp", "sol"} -> \A c \in 1..r.d : Near(r, r.w, IF r.w = "disp" THEN Coef(S, r.u, c) ELSE VAdd(r.geo[c], Coef(S, r.u, c)), r.got[c], RI(1), Tol)
       [] r.w = "full" -> \A c \in 1..r.d : Near(r, r.w, AllCoef(S, r.u, c), r.got[c], RI(1), Tol)
       [] OTHER ->
          /\ \A c \in 1..r.d : Near(r, "state", Coef(S, r.u, c), r.ul[c], RI(1), Tol)       \* the field the pieces were given
          /\ \A k \in 1..Len(r.vec) : Near(r, r.w \o "-vector", Through(S, r.vec[k].want), r.vec[k].got, Scale(r.vec[k].want), Tol)
          /\ \A k \in 1..Len(r.mat) : LET m == r.mat[k] IN
               /\ \A c \in 1..r.d : Near(r, "direction", Coef(S, m.v, c), m.vl[c], RI(1), Tol)
               /\ Near(r, r.w \o "-matrix", Through(S, m.want), m.got, Scale(m.want), Tol)
Init == l = 1 /\ sps = << >> /\ sp = << 1, 1 >> /\ on = << 1, 1 >> /\ nbad = 0
Begin == Rd.t = "begin" /\ sps' = Rd.spaces /\ sp' = << 1, 1 >> /\ on' = << 1, 1 >> /\ nbad' = nbad
Space == Rd.t = "space" /\ sp' = [sp EXCEPT ![Rd.o] = Rd.k] /\ UNCHANGED << sps, on, nbad >>
Copy == Rd.t = "copy" /\ sp' = [sp EXCEPT ![Rd.q] = sp[Rd.o]] /\ on' = [on EXCEPT ![Rd.q] = on[Rd.o]] /\ UNCHANGED << sps, nbad >>
Loads == Rd.t = "loads" /\ on' = [on EXCEPT ![Rd.o] = Rd.v] /\ UNCHANGED << sps, sp, nbad >>
Ask == Rd.t = "ask" /\ nbad' = (IF Is(Rd, "loads", Rd.on = on[Rd.o]) /\ AskOk(Rd) THEN nbad ELSE nbad + 1) /\ UNCHANGED << sps, sp, on >>
Abort == Rd.t = "end" /\ PrintT("BAD|" \o Rd.id \o "|completes-" \o Rd.how \o "|" \o ToString(l) \o "|" \o Rd.what) /\ nbad' = nbad + 1 /\ UNCHANGED << sps, sp, on >>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Space \/ Copy \/ Loads \/ Ask \/ Abort) /\ TLCSet(1, nbad')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
