------------------------------- MODULE WeakGen -------------------------------
(* How a problem with weak supports and couplings is put together.             *)
EXTENDS Catalogue, Integers, Sequences, TLC, Json
VARIABLES step, s
vars == << step, s >>
Mesh == { m \in [d : {2, 3}, bend : {0, 1}, shape : {"flat", "skew", "bump", "cyl"}, np : {1, 2, 3}, deg : {2, 3}, ref : {0, 1}, flip : 0..7] :
            /\ (m.d = 2 => m.bend = 0 /\ m.shape # "cyl") /\ ~(m.deg = 3 /\ m.ref = 1) /\ (m.np = 1 => m.flip = 0) }
Law == { x \in [law : Laws, impl : Impls, comp : {0, 1}] : Offered(x.law, x.impl, x.comp) }
\* the simplest law half of the time
Mat == { [law |-> a.law, impl |-> a.impl, comp |-> a.comp, par |-> p, many |-> w] : a \in Law, p \in {"const", "var"}, w \in {0, 1} }
Ways == {"weak0", "weak1", "both", "unc", "strong0", "strong1", "default"}
Couple == [as1 : Ways, as2 : Ways, ifcdef : -1..1, init : 0..2]
Sup == [bc : {"none", "fix", "nonhom"}, wd : 0..2, wc : 0..2, cont : {-1, 0}]
Opt == [qu : {0, 1}, motion : {"zero", "rigid", "homog", "small", "mid"}]
Allowed(n, x) ==
  CASE n = 1 -> TRUE
    [] n = 3 -> (s.np < 3 => x.as2 = x.as1) /\ (s.np = 1 => x.as1 = "default" /\ x.init = 0)
    [] n = 4 -> (s.np = 1 => x.cont = -1) /\ (s.np > 1 \/ x.wd + x.wc > 0)
    [] OTHER -> TRUE
Parts == << Mesh, Mat, Couple, Sup, Opt >>
Init == step = 0 /\ s = [kind |-> "weak"]
Next == \/ step < Len(Parts) /\ \E x \in Parts[step + 1] : Allowed(step + 1, x) /\ s' = s @@ x /\ step' = step + 1
        \/ step = Len(Parts) /\ UNCHANGED vars
Emit == step = Len(Parts) => PrintT("SCEN " \o ToJson(s))
=============================================================================
