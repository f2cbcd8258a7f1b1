------------------------------- MODULE ShellOps -------------------------------
(* Life of shell assemblers.  The state holds, per assembler, its problem       *)
(* definition; configuration calls change exactly one part of the definition of *)
(* the object they are called on, copies take the definition along, and neither *)
(* assembling nor asking changes anything.  What an assembly delivers is a      *)
(* function of the definition alone (Delivers).                                 *)
EXTENDS Catalogue, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxObj, MaxLen, Small
VARIABLES objs,   \* assembler -> definition, or Gone after it was moved from
          world,  \* dimension, variant, mesh and materials this life is about
          hist    \* operations so far (what the harness replays)
vars == << objs, world, hist >>
Gone == [geo |-> -1]
Fresh == [geo |-> 0, bas |-> 0, bc |-> 0, press |-> 0, found |-> 0, pl |-> 0, pm |-> 0, cont |-> -1, qu |-> 0, pen |-> 0, wk |-> 0]
Obj == DOMAIN objs
Live == { o \in Obj : objs[o] # Gone }

Worlds == { w \in [ d : {2, 3}, bend : {0, 1}, shape : {"flat", "skew", "bump"}, np : {1, 2}, deg : {2, 3}, ref : {0, 1},
                    law : Laws, impl : Impls, comp : {0, 1}, mats : {"one", "cont"}, body : {"zero", "cphys", "aphys", "cpar", "apar"}, par : {"const", "var"} ] :
              /\ Offered(w.law, w.impl, w.comp) /\ (w.d = 2 => w.bend = 0) /\ ~(w.deg = 3 /\ w.ref = 1) }
Do(op) == UNCHANGED world /\ hist' = Append(hist, op)
\* the parts of a definition and the values they take; 3 is a pressure that cannot be evaluated,
\* 4 one that cannot be evaluated the first time an assembly asks for it
Values(f) == CASE f = "press" -> {1, 2} \cup (IF world.d = 3 THEN {3, 4} ELSE {})
               [] f = "found" -> {1, 2}
               [] f \in {"pl", "pm", "qu", "pen"} -> 0..(IF f \in {"pl", "pm"} THEN 2 ELSE 1)
               [] f = "bc" -> 0..4
               [] f \in {"geo", "bas"} -> 0..1
               [] f = "cont" -> IF world.np = 1 THEN {} ELSE {-1, 0}
               [] f = "wk" -> IF world.np = 1 THEN {} ELSE 0..2
Ways(f) == IF f \in {"qu", "pen"} THEN 0..1 ELSE IF f = "geo" THEN 0..2 ELSE {0}
Set(o, f, k, w) == objs' = [objs EXCEPT ![o][f] = k] /\ Do(<< "set", o, f, k, w >>)
Copy(o) == Len(objs) < MaxObj /\ objs' = Append(objs, objs[o]) /\ Do(<< "copy", o >>)
Assign(o, q) == objs' = [objs EXCEPT ![o] = objs[q]] /\ Do(<< "assign", o, q >>)
Move(o) == Len(objs) < MaxObj /\ objs' = Append([objs EXCEPT ![o] = Gone], objs[o]) /\ Do(<< "move", o >>)
MoveTo(o, q) == o # q /\ objs' = [objs EXCEPT ![o] = objs[q], ![q] = Gone] /\ Do(<< "moveto", o, q >>)
Kinds == {"lin", "vec", "vecn", "mat", "both", "bothu", "mass", "lump"}
Can(kind, def) == kind = "bothu" => def.bas = 0      \* a solution vector deforms the geometry in its own basis
\* an assembly succeeds unless what it integrates cannot be evaluated
Fails(kind, def) == def.press \in {3, 4} /\ kind \notin {"mass", "lump"}
Assemble(o, kind, g) == Can(kind, objs[o]) /\ Do(<< "asm", o, kind, g >>) /\ UNCHANGED objs
\* options reached through options() take effect at the next assembly; a continuity changes the number of
\* degrees of freedom there, so nothing is asked of the object in between
SetAndAssemble(o, k, kind, g) == /\ k \in Values("cont") /\ kind # "bothu" /\ Len(hist) + 1 < MaxLen
                                 /\ objs' = [objs EXCEPT ![o]["cont"] = k] /\ UNCHANGED world
                                 /\ hist' = hist \o << << "set", o, "cont", k, 1 >>, << "asm", o, kind, g >> >>
\* a solution deforms the geometry in its own basis; stress fields (6) are those of surfaces
Ask(o, k) == (objs[o].bas = 0 \/ k \notin {0}) /\ (world.d = 3 \/ k # 6) /\ Do(<< "ask", o, k >>) /\ UNCHANGED objs

Init == objs = << Fresh >> /\ hist = << >> /\ world \in IF Small THEN { [d |-> 3, np |-> 2] } ELSE Worlds
Changes == \/ \E o \in Live, f \in {"press", "found", "pl", "pm", "bc", "geo", "bas", "cont", "qu", "pen", "wk"} : \E k \in Values(f), w \in Ways(f) : Set(o, f, k, w)
           \/ \E o \in Live : Copy(o) \/ Move(o)
           \/ \E o \in Obj, q \in Live : (o \in Live /\ Assign(o, q)) \/ MoveTo(o, q)
Late == \E o \in Live, k \in {-1, 0}, kind \in Kinds : SetAndAssemble(o, k, kind, 0)
Asms == \E o \in Live, kind \in Kinds, g \in 0..1 : Assemble(o, kind, g)
Asks == \E o \in Live, k \in 0..7 : Ask(o, k)
End == Len(hist) = MaxLen /\ Do(<< "end" >>) /\ UNCHANGED objs
Next == End \/ (Len(hist) < MaxLen /\ (Changes \/ Late \/ Asms \/ Asks))
Spec == Init /\ [][Next]_vars

\* what the specification promises about itself
TypeOK == \A o \in Obj : objs[o] = Gone \/ DOMAIN objs[o] = DOMAIN Fresh
Op == hist'[Len(hist')]
Pure == [][(Op[1] \in {"asm", "ask", "end"} /\ Len(hist') = Len(hist) + 1) => objs' = objs]_vars
Touched == CASE Op[1] \in {"set", "assign", "move"} -> {Op[2]} [] Op[1] = "moveto" -> {Op[2], Op[3]} [] OTHER -> {}
Frame == [][Len(hist') = Len(hist) + 1 => \A o \in Obj : o \in Touched \/ objs'[o] = objs[o]]_vars
\* a definition that was set stays in force until it is set again or the object is overwritten
Stays == [][\A o \in Obj : (Op[1] = "set" /\ Op[2] = o) => \A f \in DOMAIN Fresh \ {Op[3]} : objs'[o][f] = objs[o][f]]_vars
Emit == (Len(hist) = MaxLen + 1) => PrintT("SCEN " \o ToJson([ops |-> hist] @@ world))
NoHist == objs
=============================================================================
