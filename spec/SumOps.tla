-------------------------------- MODULE SumOps --------------------------------
(* Lives of sums of functions.  A sum refers to its terms (it does not own     *)
(* them): its answers follow the terms as they are when asked, a copy stands    *)
(* for the same terms and for nothing else, and outlives the sum it was taken   *)
(* from.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NTerm, MaxSum, MaxLen, MaxOn, Whats, Small
VARIABLES ver,    \* term -> how often its coefficients were changed
          sums,   \* sum -> its terms; << >> once it is gone
          world, hist
vars == << ver, sums, world, hist >>
Terms == 1..NTerm
Lists == UNION { [1..n -> Terms] : n \in 1..MaxOn }
Do(op) == UNCHANGED world /\ hist' = Append(hist, op)
Live == { i \in DOMAIN sums : sums[i] # << >> }
\* w: by the list of terms (0) or as undeformed surface and deformation (1)
Make(q, w) == Len(sums) < MaxSum /\ (w = 1 => Len(q) = 2) /\ sums' = Append(sums, q) /\ Do(<< "new", w >> \o q) /\ UNCHANGED ver
Copy(i) == Len(sums) < MaxSum /\ sums' = Append(sums, sums[i]) /\ Do(<< "copy", i >>) /\ UNCHANGED ver
Kill(i) == sums' = [sums EXCEPT ![i] = << >>] /\ Do(<< "kill", i >>) /\ UNCHANGED ver
Bend(t) == ver' = [ver EXCEPT ![t] = @ + 1] /\ Do(<< "bend", t >>) /\ UNCHANGED sums
Ask(i, w) == Do(<< "ask", i, w >>) /\ UNCHANGED << ver, sums >>
Worlds == [d : {2, 3}, np : 1..3, deg : {2, 3}, ref : {0, 1}, shape : {"flat", "skew", "bump"}, law : {"SvK", "NH"}]
Init == ver = [t \in Terms |-> 0] /\ sums = << >> /\ hist = << >> /\ world \in IF Small THEN { [d |-> 2] } ELSE Worlds
Step == \/ \E q \in Lists, w \in 0..1 : Make(q, w)
        \/ \E i \in Live : Copy(i) \/ Kill(i)
        \/ \E t \in Terms : Bend(t)
        \/ \E i \in Live, w \in Whats : Ask(i, w)
\* in simulation the choice of the kind of step comes first, lists are rare
Pick == \/ Len(sums) < MaxSum /\ \E n \in {RandomElement(1..MaxOn)}, w \in 0..1 : \E q \in {RandomElement([1..n -> Terms])} : Make(q, w)
        \/ \E i \in Live : Copy(i) \/ Kill(i)
        \/ \E t \in {RandomElement(Terms)} : Bend(t)
        \/ \E i \in Live, w \in Whats : Ask(i, w)
End == Len(hist) = MaxLen /\ Do(<< "end" >>) /\ UNCHANGED << ver, sums >>
Next == End \/ (Len(hist) < MaxLen /\ IF Small THEN Step ELSE Pick)
Spec == Init /\ [][Next]_vars
TypeOK == \A i \in DOMAIN sums : sums[i] = << >> \/ sums[i] \in Lists
Op == hist'[Len(hist')]
\* an operation touches the sum or term it names only; asking touches nothing
Frame == [][\A i \in DOMAIN sums : sums'[i] = sums[i] \/ (Op[1] = "kill" /\ Op[2] = i)]_vars
Pure == [][Op[1] = "ask" => sums' = sums /\ ver' = ver]_vars
Emit == Len(hist) = MaxLen + 1 => PrintT("SCEN " \o ToJson([ops |-> hist] @@ world))
=============================================================================
