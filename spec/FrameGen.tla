------------------------------- MODULE FrameGen -------------------------------
(* Structures and sequences of changes of frame and parametrisation.            *)
EXTENDS Catalogue, Integers, Sequences, TLC, Json
VARIABLES step, s
vars == << step, s >>
Mesh == { m \in [d : {2, 3}, bend : {0, 1}, shape : {"flat", "skew", "bump", "cyl"}, np : {1, 2}, deg : {2, 3}, cont : {-1, 0}] :
            (m.d = 2 => m.bend = 0 /\ m.shape # "cyl") }
Law == { x \in [law : Laws, impl : Impls, comp : {0, 1}] : Offered(x.law, x.impl, x.comp) }
Rest == [loads : 0..31, motion : {"zero", "rigid", "homog", "mid"}]
Acts == {"move", "turn", "mirror", "rev0", "rev1", "swap", "scale0", "scale1", "split0", "split1", "order"}
Press == s.d = 3 /\ (s.loads \div 4) % 2 = 1
N == 4
Init == step = 0 /\ s = [kind |-> "frame"]
Add(x) == s' = s @@ x /\ step' = step + 1
Next == \/ step = 0 /\ \E x \in Mesh : Add(x)
        \/ step = 1 /\ \E x \in Law : Add(x)
        \/ step = 2 /\ \E x \in Rest : Add(x)
        \/ step \in 3..(2 + N) /\ \E a \in Acts, p \in 0..2 :
             /\ (a \in {"rev0", "rev1", "swap"} /\ Press => p = 0)
             /\ (a \in {"split0", "split1"} => p # 0)
             /\ (a \in {"move", "turn", "mirror", "order"} => p = 0)
             /\ Add((("a" \o ToString(step - 2)) :> a) @@ (("p" \o ToString(step - 2)) :> p))
        \/ step = 3 + N /\ UNCHANGED vars
Emit == step = 3 + N => PrintT("SCEN " \o ToJson(s))
=============================================================================
