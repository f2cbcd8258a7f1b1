------------------------------- MODULE ConvGen -------------------------------
(* Problems with supports, and lives of the assembler between conversions:     *)
(* assemblies, homogenised conditions, copies and new supports come between.   *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES step, s
vars == << step, s >>
Dims == { m \in [d : {2, 3}, bend : {0, 1}, shape : {"flat", "skew", "bump", "cyl"}] : m.d = 2 => m.bend = 0 /\ m.shape # "cyl" }
Mesh == { m \in [np : {1, 2, 3}, deg : {2, 3}, ref : {0, 1}, flip : 0..7] : ~(m.deg = 3 /\ m.ref = 1) /\ (m.np = 1 => m.flip = 0) }
Kinds == {"none", "dall", "dcomp", "clamp", "coll", "corner", "couple"}
Sup == [data : {"null", "const", "affine", "par"}, cont : {-1, 0}]
Convert == {"disp", "disp2", "mult", "sol", "sol2", "upd", "full", "back", "map"}
Between == {"hom", "lin", "vec", "mat", "mass", "bc", "cont", "copy"}
\* the first conversion fixes the numbering; at the end everything is converted once more
Op(n) == CASE n = 1 -> {"disp"} [] n \in {2, 4, 6} -> Between [] OTHER -> Convert
Named(k, n) == (k \o ToString(n))
Init == step = 0 /\ s = [kind |-> "conv"]
Add(x) == s' = s @@ x /\ step' = step + 1
Next == \/ step = 0 /\ \E x \in Dims : Add(x)
        \/ step = 1 /\ \E x \in Mesh : Add(x)
        \/ step = 2 /\ \E x \in Sup : (s.np = 1 => x.cont = -1) /\ Add(x)
        \/ step \in 3..5 /\ \E x \in Kinds : Add(Named("c", step - 2) :> x)
        \/ step \in 6..13 /\ \E x \in Op(step - 5) : Add(Named("o", step - 5) :> x)
        \/ step = 14 /\ UNCHANGED vars
Emit == step = 14 => PrintT("SCEN " \o ToJson(s))
=============================================================================
