-------------------------------- MODULE LamGen --------------------------------
(* Stacks of plies, the surfaces they lie on, and the order of questions.       *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES step, s
vars == << step, s >>
Mesh == [d : {2, 3}, np : {1, 2}, deg : {2, 3}, shape : {"flat", "skew", "bump", "cyl"}]
Plies == [layers : {1, 2, 3, 4}, order : {"any", "symmetric", "anti"}, thick : {"equal", "any", "var"}, angle : {"zero", "right", "diagonal", "any", "var"}]
Rest == [ply : {"iso", "ortho", "raw6", "raw9", "mixed"}, rho : {0, 1}, pieces : {0, 1}, door : {"direct", "ptr", "ptr2", "cont", "clone", "nodef"}, n : {1, 3}]
Motions == {"zero", "rigid", "iso", "homog", "small", "mid", "large"}
Qs == {"A", "B", "C", "D", "N", "M", "N", "M", "thickness", "density"}
Init == step = 0 /\ s = [kind |-> "lam"]
Add(x) == s' = s @@ x /\ step' = step + 1
Next == \/ step = 0 /\ \E x \in Mesh : Add(x)
        \/ step = 1 /\ \E x \in Plies : Add(x)
        \/ step = 2 /\ \E x \in Rest : Add(x)
        \/ step = 3 /\ \E x, y \in Motions : Add([m1 |-> x, m2 |-> y])
        \/ step \in 4..9 /\ \E x \in Qs : Add(("q" \o ToString(step - 3)) :> x)
        \/ step = 10 /\ UNCHANGED vars
Emit == step = 10 => PrintT("SCEN " \o ToJson(s))
=============================================================================
