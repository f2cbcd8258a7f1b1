-------------------------------- MODULE Frame --------------------------------
(* Versions of one structure: an action moves it in space (with its loads, or   *)
(* only the deformed configuration), mirrors it, or parametrises it anew.  Each *)
(* action has a set of observables it leaves unchanged.                         *)
EXTENDS Mechanics, FiniteSets
Moves == {"move", "turn", "mirror"}
Params == {"rev0", "rev1", "swap", "scale0", "scale1", "split0", "split1", "order"}
Actions == Moves \cup Params
\* 3x3 matrices as sequences of rows; planar ones are extended by the third axis
Ext(q) == IF Len(q) = 3 THEN q ELSE << << q[1][1], q[1][2], RI(0) >>, << q[2][1], q[2][2], RI(0) >>, << RI(0), RI(0), RI(1) >> >>
MatV(q, v) == << VDot(q[1], v), VDot(q[2], v), VDot(q[3], v) >>
ColOf(q, j) == << q[1][j], q[2][j], q[3][j] >>
MatM(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> VDot(a[i], ColOf(b, j))]]
Trans(a) == [i \in 1..3 |-> ColOf(a, i)]
Ident == << << RI(1), RI(0), RI(0) >>, << RI(0), RI(1), RI(0) >>, << RI(0), RI(0), RI(1) >> >>
Flatten(a) == a[1] \o a[2] \o a[3]
\* the tensor s^{ij} a_i (x) a_j
Tensor(s, a1, a2) == [i \in 1..3 |-> [j \in 1..3 |->
   RAdd(RAdd(RMul(s[1], RMul(a1[i], a1[j])), RMul(s[2], RMul(a2[i], a2[j]))), RMul(s[3], RAdd(RMul(a1[i], a2[j]), RMul(a2[i], a1[j]))))]]
\* ----- state of a version relative to the first one
\* R: rotation of the undeformed structure;  dead: the deformed configuration was turned without the loads
Start == [R |-> Ident, dead |-> FALSE]
After(w, a, q) == [ R |-> IF a \in {"move", "mirror"} THEN MatM(Ext(q), w.R) ELSE w.R, dead |-> w.dead \/ a = "turn" ]
=============================================================================
