------------------------------- MODULE PostGen -------------------------------
(* Questions to an assembler, in any order and between assemblies.             *)
EXTENDS Catalogue, Integers, Sequences, TLC, Json
VARIABLES step, s
vars == << step, s >>
Dims == { m \in [d : {2, 3}, bend : {0, 1}, shape : {"flat", "skew", "bump", "cyl"}] : m.d = 2 => m.bend = 0 /\ m.shape # "cyl" }
Mesh == { m \in [np : {1, 2, 3}, deg : {2, 3}, ref : {0, 1}, flip : 0..7] : ~(m.deg = 3 /\ m.ref = 1) /\ (m.np = 1 => m.flip = 0) }
Law == { x \in [law : Laws, impl : Impls, comp : {0, 1}] : Offered(x.law, x.impl, x.comp) }
Rest == [par : {"const", "var"}, many : {0, 1}, bc : {"none", "fix", "comp", "nonhom"}]
Opt == [qu : {0, 1}, cont : {-1, 0}, torn : {0, 1}, motion : {"zero", "rigid", "homog", "small", "mid"}]
Ops == {"lin", "both", "mass", "area", "area0", "dnorm", "energy", "defnorm", "force", "ifc0", "ifg1", "ifn", "ifk", "ifh", "proj", "projm"}
Init == step = 0 /\ s = [kind |-> "post"]
Add(x) == s' = s @@ x /\ step' = step + 1
Next == \/ step = 0 /\ \E x \in Dims : Add(x)
        \/ step = 1 /\ \E x \in Mesh : Add(x)
        \/ step = 2 /\ \E x \in Law : Add(x)
        \/ step = 3 /\ \E x \in Rest : Add(x)
        \/ step = 4 /\ \E x \in Opt : (s.np = 1 => x.cont = -1) /\ Add(x)
        \/ step \in 5..11 /\ \E x \in Ops : (x \in {"ifc0", "ifg1", "ifn", "ifk", "ifh"} => s.np > 1) /\ (x \in {"ifg1", "ifn", "ifk", "ifh"} => s.d = 3) /\ Add(("o" \o ToString(step - 4)) :> x)
        \/ step = 12 /\ UNCHANGED vars
Emit == step = 12 => PrintT("SCEN " \o ToJson(s))
=============================================================================
