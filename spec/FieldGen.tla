------------------------------- MODULE FieldGen -------------------------------
(* Fields of a shell: which are asked for, of which state and patch, through   *)
(* which door, and in which order they are evaluated.                          *)
EXTENDS Catalogue, Integers, Sequences, TLC, Json
VARIABLES step, s
vars == << step, s >>
Mesh == [d : {3}, bend : {0, 1}, np : {1, 2, 3}, deg : {2, 3}, ref : {0}, shape : {"flat", "skew", "bump", "cyl"}, body : {"zero"}, loads : {0}, bc : {"none"}]
Family == [fam : {"linear", "hyper"}]
Law == { x \in [law : Laws, impl : Impls, comp : {0, 1}, par : {"const", "var"}] : Offered(x.law, x.impl, x.comp) }
Motions == {"zero", "rigid", "iso", "homog", "small", "mid", "large"}
Rest == [mats : {"one", "many"}, way : {"own", "other", "direct"}, motion : Motions, motion2 : {"small", "mid"}]
Fields == { "f_displacement", "f_von_mises", "f_von_mises_membrane", "f_von_mises_flexural", "f_membrane", "f_membrane_force", "f_membrane_PK2",
            "f_membrane_force_PK2", "f_flexural", "f_flexural_PK2", "f_flexural_moment", "f_flexural_moment_PK2", "f_membrane_strain",
            "f_flexural_strain", "f_principal_membrane_strain", "f_principal_flexural_strain", "f_principal_stretch", "f_principal_stress",
            "f_principal_stress_membrane", "f_principal_stress_flexural", "f_principal_stretch_dir1", "f_principal_stretch_dir2", "f_principal_stretch_dir3",
            "f_principal_stress_dir1", "f_principal_stress_dir2", "f_principal_stress_dir3", "f_tension_field", "pstretch", "pstress" }
Init == step = 0 /\ s = [kind |-> "field"]
Add(x) == s' = s @@ x /\ step' = step + 1
Next == \/ step = 0 /\ \E x \in Mesh : Add(x)
        \/ step = 1 /\ \E x \in Family : Add(x)
        \/ step = 2 /\ \E x \in Law : (s.fam = "linear" <=> x.law = "SvK") /\ Add(x)
        \/ step = 3 /\ \E x \in Rest : Add(x)
        \/ step \in 4..11 /\ \E x \in Fields : Add(("q" \o ToString(step - 3)) :> x)
        \/ step = 12 /\ UNCHANGED vars
Emit == step = 12 => PrintT("SCEN " \o ToJson(s))
=============================================================================
