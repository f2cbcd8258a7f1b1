------------------------------- MODULE DualGen -------------------------------
(* Goal-oriented problems, and the questions asked to one object in any order. *)
EXTENDS Catalogue, Integers, Sequences, TLC, Json
VARIABLES step, s
vars == << step, s >>
Dims == { m \in [d : {2, 3}, bend : {0, 1}, shape : {"flat", "skew", "bump", "cyl"}] : m.d = 2 => m.bend = 0 /\ m.shape # "cyl" }
Mesh == { m \in [np : {1, 2}, deg : {2}, ref : {0, 1}, flip : {0, 1, 6}, refh : {0, 1}, cont : {-1, 0}] :
            (m.np = 1 => m.flip = 0 /\ m.cont = -1) /\ m.np + m.ref + m.refh <= 3 }
Families == {"SvK", "other"}
Law == { x \in [law : Laws, impl : Impls, comp : {0, 1}] : Offered(x.law, x.impl, x.comp) }
Fun == [par : {"const", "var"}, body : {"zero", "cphys", "aphys", "cpar", "apar"}, loads : {0, 1, 8, 16, 9, 25}]
Opt == [bc : {"none", "fix", "comp", "nonhom"}, qu : {0, 1}, motion : {"zero", "rigid", "homog", "small", "mid"}]
Goals == {"disp", "stretch", "pstrain", "pstress", "mstrain", "mstress", "mforce", "fstrain", "fstress", "fmoment"}
Ops == {"goal", "dual", "dual2", "op", "err", "eig", "help"}
Asks(op) ==
  CASE op = "goal" -> {"goal"} [] op \in {"dual", "dual2"} -> {"dual"} [] op = "op" -> {"lin", "linm", "linp", "tan", "res", "mass", "lump"}
    [] op = "err" -> {"err", "errel", "sqerr", "sqerrel"} [] op = "help" -> {"help"} [] op = "eig" -> {"modal", "modalel", "buckl", "buckel", "mnorm", "bnorm"}
\* flexural stress is that of the linear law; principal values have two components
Able(g, c) == (g \in {"stretch", "pstrain", "pstress"} => c # 2) /\ (g = "fstress" => s.law = "SvK")
Detail(op, h) ==
  IF op \in {"goal", "dual", "dual2", "help"}
  THEN { [o |-> a, g |-> g, c |-> c, p |-> p, h |-> h] : a \in Asks(op), g \in Goals, c \in {0, 1, 2, 9}, p \in IF op = "help" THEN {"dom", "bnd", "pts", "all"} ELSE {"dom", "bnd", "pts"} }
  ELSE { [o |-> a, g |-> "none", c |-> 9, p |-> "none", h |-> h] : a \in Asks(op) }
Key(x, k) == LET n == ToString(k) IN (("o" \o n) :> x.o) @@ (("g" \o n) :> x.g) @@ (("c" \o n) :> x.c) @@ (("p" \o n) :> x.p) @@ (("h" \o n) :> x.h)
NA == 5
Init == step = 0 /\ s = [kind |-> "dwr"]
Add(x) == s' = s @@ x /\ step' = step + 1
Ask(k) == (step - 5) % 2 = 0 /\ \E op \in Ops, h \in {0, 1} : (op \in {"eig", "help"} => s.d = 3 /\ s.bend = 1 /\ (s.comp = 1 => s.np + s.ref + s.refh <= 2)) /\ (op \in {"goal", "dual", "dual2"} => s.d = 3) /\ Add([nxt |-> << op, h >>])
Tell(k) == (step - 5) % 2 = 1 /\ \E x \in Detail(s.nxt[1], s.nxt[2]) : (x.g # "none" => Able(x.g, x.c))
             /\ s' = [y \in DOMAIN s \ {"nxt"} |-> s[y]] @@ Key(x, k) /\ step' = step + 1
Next == \/ step = 0 /\ \E x \in Dims : Add(x)
        \/ step = 1 /\ \E x \in Mesh : Add(x)
        \/ step = 2 /\ \E f \in Families : Add([fam |-> f])
        \/ step = 3 /\ \E x \in Law : (s.fam = "SvK" <=> x.law = "SvK") /\ Add(x)
        \/ step = 4 /\ \E x \in Fun : Add(x)
        \/ step \in 5..4 + 2 * NA /\ (Ask((step - 3) \div 2) \/ Tell((step - 4) \div 2))
        \/ step = 5 + 2 * NA /\ \E x \in Opt : Add(x)
        \/ step = 6 + 2 * NA /\ UNCHANGED vars
Emit == step = 6 + 2 * NA => PrintT("SCEN " \o ToJson(s))
=============================================================================
