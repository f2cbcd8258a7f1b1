------------------------------- MODULE ShellGen -------------------------------
(* How a shell problem is put together: mesh, materials, loads, supports and   *)
(* options are chosen one after another; every finished problem is a scenario. *)
EXTENDS Catalogue, Integers, Sequences, TLC, Json
VARIABLES step, s
vars == << step, s >>
Mesh == { m \in [d : {2, 3}, bend : {0, 1}, shape : {"flat", "skew", "bump", "cyl"}, np : {1, 2}, deg : {1, 2, 3}, ref : {0, 1}] :
            /\ (m.d = 2 => m.bend = 0 /\ m.shape # "cyl")
            /\ (m.deg = 1 => m.bend = 0 /\ m.shape \in {"flat", "skew"})
            /\ ~(m.deg = 3 /\ m.ref = 1) }
Law == { x \in [law : Laws, impl : Impls, comp : {0, 1}] : Offered(x.law, x.impl, x.comp) }
Mat == { [law |-> a.law, impl |-> a.impl, comp |-> a.comp, law2 |-> b.law, impl2 |-> b.impl, comp2 |-> b.comp, mats |-> w] :
           a \in Law, b \in Law, w \in {"one", "cont", "mix"} }
Fun == [par : {"const", "var"}, body : {"zero", "cphys", "aphys", "cpar", "apar"}]
Load == [loads : 0..31, pm : 0..3]    \* bits: traction, pressure, foundation, point loads (parametric, physical); point masses
Sup == { x \in [bc : {"none", "fix", "comp", "nonhom", "nonhomc", "clamp", "collapse"}, cont : {-1, 0}] : TRUE }
Opt == [qu : {0, 1}, motion : {"zero", "rigid", "homog", "small", "mid"}]
Allowed(n, x) ==
  CASE n = 2 -> (x.mats = "mix" => s.np = 2) /\ (x.mats # "mix" => x.law2 = x.law /\ x.impl2 = x.impl /\ x.comp2 = x.comp)
    [] n = 5 -> (x.bc \in {"clamp", "collapse"} => s.deg > 1) /\ (s.np = 1 => x.cont = -1)
    [] OTHER -> TRUE
Parts == << Mesh, Mat, Fun, Load, Sup, Opt >>
Init == step = 0 /\ s = [kind |-> "shell"]
Next == \/ step < Len(Parts) /\ \E x \in Parts[step + 1] : Allowed(step + 1, x) /\ s' = s @@ x /\ step' = step + 1
        \/ step = Len(Parts) /\ UNCHANGED vars
Emit == step = Len(Parts) => PrintT("SCEN " \o ToJson(s))
=============================================================================
