------------------------------ MODULE FrameTrace ------------------------------
(* Consumes the versions of a structure: Define (world), Act, Observe (obs).    *)
EXTENDS Frame, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, def, ver, first, nbad
vars == << l, def, ver, first, nbad >>
Tol == RParse("1e-8")
None == [t |-> "none"]
Bad(r, law, k, want, got) == PrintT("BAD|" \o r.id \o "|" \o law \o "|" \o ToString(l) \o "|no " \o ToString(k) \o " want " \o VStr(want) \o " got " \o VStr(got)) /\ FALSE
Eq(r, law, k, want, got, scale) == IF VClose(want, got, scale, Tol) THEN TRUE ELSE Bad(r, law, k, want, got)
Is(r, law, cond) == IF cond THEN TRUE ELSE Bad(r, law, 0, << >>, << >>)
\* linear matrix, linear load, tangent, residual, mass, areas, energy
IntNames == << "lin", "lin", "lin", "linrhs", "linrhs", "tangent", "tangent", "tangent", "force", "force", "mass", "mass", "mass", "area", "area", "energy" >>
AllNames == << "lin", "lin", "lin", "load", "load", "tangent-load", "tangent-load", "tangent-load", "residual", "residual" >>
\* scale of the observable i: internal forces are measured against the stiffness as well (they may vanish)
Sc(r, n, i) == LET s == r[n \o "s"] IN IF i \in {9, 10} THEN RMax(s[i], RMul(RParse("1e-2"), s[1])) ELSE IF n = "int" /\ i = 16 THEN RMul(RParse("1e-2"), r.ints[1]) ELSE s[i]
Same(r, n, names) == Len(r[n]) = Len(first[n]) /\ \A i \in 1..Len(first[n]) :
                        (ver.dead /\ (n = "all" \/ names[i] \in {"lin", "linrhs", "energy"})) \/ Eq(r, names[i], i, << first[n][i] >>, << r[n][i] >>, RMax(Sc(first, n, i), Sc(r, n, i)))
PointSame(r, k) ==
  LET a == first.pts[k] b == r.pts[k]
      ss == RMul(RParse("1e-2"), a.E[1])
      R == ver.R
      Ta == Tensor(a.s, a.ori[1], a.ori[2])
      Tb == Tensor(b.s, b.ori[1], b.ori[2])
  IN /\ Eq(r, "stretch", k, a.stretch, b.stretch, One)
     /\ Eq(r, "strain", k, a.strain, b.strain, One)
     /\ Eq(r, "stress", k, a.stress, b.stress, ss)
     /\ Eq(r, "true-stress", k, a.true, b.true, ss)
     /\ Eq(r, "stress-tensor", k, Flatten(MatM(R, MatM(Ta, Trans(R)))), Flatten(Tb), ss)
\* a structure that was only moved as a whole is at rest
Rest(r) ==
  def.motion \in {"zero", "rigid"} =>
    /\ \A i \in {9, 10} : Eq(r, "at-rest", i, << RI(0) >>, << r.int[i] >>, r.ints[1])
    /\ \A k \in 1..Len(r.pts) : /\ Eq(r, "unstressed", k, << RI(0), RI(0) >>, r.pts[k].stress, r.pts[k].E[1])
                                /\ Eq(r, "unstretched", k, << One, One, One >>, r.pts[k].stretch, One)
ObsOk(r) ==
  /\ Is(r, "assembled", r.intok /\ r.allok)
  /\ Rest(r)
  /\ first = None \/ (Same(r, "int", IntNames) /\ Same(r, "all", AllNames) /\ \A k \in 1..Len(first.pts) : PointSame(r, k))
Init == l = 1 /\ def = None /\ ver = None /\ first = None /\ nbad = 0
Rd == Trace[l]
Define  == Rd.t = "world" /\ def' = Rd /\ ver' = Start /\ first' = None /\ nbad' = nbad
\* one patch alone can be turned over only if no load tells its sides apart
Act     == Rd.t = "act" /\ first # None /\ Rd.a \in Actions /\ (Rd.a \in {"rev0", "rev1", "swap"} /\ Rd.which # 0 => ~Rd.press)
           /\ ver' = After(ver, Rd.a, Rd.Q) /\ UNCHANGED << def, first, nbad >>
Observe == Rd.t = "obs" /\ nbad' = (IF ObsOk(Rd) THEN nbad ELSE nbad + 1) /\ first' = (IF first = None THEN Rd ELSE first) /\ UNCHANGED << def, ver >>
Abort   == Rd.t = "end" /\ ~Bad(Rd, "completes-" \o Rd.how, 0, << >>, << >>) /\ nbad' = nbad + 1 /\ UNCHANGED << def, ver, first >>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Define \/ Act \/ Observe \/ Abort) /\ TLCSet(1, nbad')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
