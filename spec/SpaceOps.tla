------------------------------- MODULE SpaceOps -------------------------------
(* Lives of assemblers whose unknowns are coefficients of given functions: of   *)
(* the pieces of the mesh themselves (space 1) or of combinations of them       *)
(* (mapped bases, spaces 2..).  The space belongs to the assembler: setting it  *)
(* concerns that assembler only, a copy spans what its source spans, and the    *)
(* loads, masses and supports of the problem stay as they are.                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NObj, NSpace, MaxLen, Whats, Small
VARIABLES sp,     \* assembler -> space of its unknowns
          on,     \* assembler -> are the concentrated loads and masses set
          world, hist
vars == << sp, on, world, hist >>
Objs == 1..NObj
Do(op) == UNCHANGED world /\ hist' = Append(hist, op)
SetSpace(o, k) == sp' = [sp EXCEPT ![o] = k] /\ Do(<< "space", o, k >>) /\ UNCHANGED on
\* w: as a new object (0) or by assignment (1)
Copy(o, q, w) == o # q /\ sp' = [sp EXCEPT ![q] = sp[o]] /\ on' = [on EXCEPT ![q] = on[o]] /\ Do(<< "copy", o, q, w >>)
Loads(o) == on' = [on EXCEPT ![o] = 1 - @] /\ Do(<< "loads", o, 1 - on[o] >>) /\ UNCHANGED sp
Ask(o, w) == Do(<< "ask", o, w >>) /\ UNCHANGED << sp, on >>
Maps == {"id", "glue", "coarse", "coarseglue", "rand"}
Worlds == [d : {2, 3}, bend : {0, 1}, np : 1..3, deg : {2, 3}, ref : {0, 1}, shape : {"flat", "skew", "bump"}, law : {"SvK", "NH"}, body : {"cphys", "apar"},
           loads : {0, 8, 9, 24, 27, 31, 15}, pm : {0, 1, 2, 3}, bc : {"none", "fix", "comp"}, m2 : Maps, m3 : Maps]
Init == sp = [o \in Objs |-> 1] /\ on = [o \in Objs |-> 1] /\ hist = << >> /\ world = [d |-> 2]
SmallWorld == [d |-> 2]
Step == \/ \E o \in Objs, k \in 1..NSpace : SetSpace(o, k)
        \/ \E o, q \in Objs, w \in 0..1 : Copy(o, q, w)
        \/ \E o \in Objs : Loads(o)
        \/ \E o \in Objs, w \in Whats : Ask(o, w)
End == Len(hist) = MaxLen /\ Do(<< "end" >>) /\ UNCHANGED << sp, on >>
Choose == ~Small /\ world = SmallWorld /\ world' = RandomElement(Worlds) /\ UNCHANGED << sp, on, hist >>
Next == Choose \/ ((Small \/ world # SmallWorld) /\ (End \/ (Len(hist) < MaxLen /\ Step)))
Spec == Init /\ [][Next]_vars
TypeOK == sp \in [Objs -> 1..NSpace] /\ on \in [Objs -> 0..1]
Op == hist'[Len(hist')]
Target == IF Op[1] = "copy" THEN Op[3] ELSE IF Op[1] = "end" THEN 0 ELSE Op[2]
\* an operation concerns the assembler it names; asking changes nothing
Frame == [][\A o \in Objs : o # Target => sp'[o] = sp[o] /\ on'[o] = on[o]]_vars
Pure == [][Op[1] = "ask" => sp' = sp /\ on' = on]_vars
Emit == Len(hist) = MaxLen + 1 => PrintT("SCEN " \o ToJson([ops |-> hist] @@ world))
=============================================================================
