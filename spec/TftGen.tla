-------------------------------- MODULE TftGen --------------------------------
(* Tension-field materials: base law, surface, states and the life of options.  *)
EXTENDS Catalogue, Integers, Sequences, TLC, Json
VARIABLES step, s
vars == << step, s >>
Mesh == { x \in [d : {2, 3}, np : {1, 2}, shape : {"flat", "skew", "bump", "cyl"}] : x.d = 3 \/ x.shape # "cyl" }
Base == { x \in [law : Laws, impl : Impls, comp : {0, 1}] : Offered(x.law, x.impl, x.comp) }
Rest == [lin : {0, 1}, ctor : {"ptr", "ref", "sptr"}, when : {"before", "after"}, par : {"const", "var"}, n : {1, 3}, nz : {1, 2}]
States == {"tiny", "taut", "wrinkle", "slack", "mid", "large"}
Sets == {"none", "none", "def1", "def2", "upd1", "upd2", "exp1", "exp2", "expoff", "slack0", "slack1", "crit0", "crit1", "crit2"}
Asks == {"class", "stress", "vector", "strain", "matrix", "cauchy", "pstress", "pstrain", "theta", "gamma", "baseStress", "VectorN1", "VectorN2", "MatrixA1", "MatrixA2", "thickness", "density"}
Init == step = 0 /\ s = [kind |-> "tft"]
Add(x) == s' = s @@ x /\ step' = step + 1
Next == \/ step = 0 /\ \E x \in Mesh : Add(x)
        \/ step = 1 /\ \E f \in {"linear", "other"} : Add([fam |-> f])
        \/ step = 2 /\ \E x \in Base : (x.law = "SvK") = (s.fam = "linear") /\ Add(x)
        \/ step = 3 /\ \E x \in Rest : Add(x)
        \/ step = 4 /\ \E x, y \in States : Add([m1 |-> x, m2 |-> y])
        \/ step \in {5, 7, 9, 11} /\ \E x \in Sets : Add(("q" \o ToString(step - 4)) :> x)
        \/ step \in {6, 8, 10, 12} /\ \E x \in Asks : Add(("q" \o ToString(step - 4)) :> x)
        \/ step = 13 /\ UNCHANGED vars
Emit == step = 13 => PrintT("SCEN " \o ToJson(s))
=============================================================================
