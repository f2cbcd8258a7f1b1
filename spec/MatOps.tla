-------------------------------- MODULE MatOps --------------------------------
(* Life of material objects: definitions, changes, copies, containers and      *)
(* evaluator objects.  The state holds, per object, what defines its answers;   *)
(* an evaluation reads that definition and changes nothing.  An evaluator or    *)
(* integrator object refers to the materials it was built from and hands them   *)
(* the configuration it was built with (so several evaluators on one material   *)
(* share the configuration set last).                                           *)
EXTENDS Catalogue, Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxObj, MaxEv, MaxLen, MaxVer, NPatch, NGeo
VARIABLES objs,   \* object -> definition
          con,    \* patch -> object in the container, 0 when empty
          evs,    \* evaluator objects: kind and, per patch, the object behind it
          world,  \* which two materials and which geometry this life is about
          hist    \* operations so far (history variable, what the harness replays)
vars == << objs, con, evs, world, hist >>
CONSTANT Small

Patches == 1..NPatch
Geos == 1..NGeo
Obj == DOMAIN objs
Def(d, g) == [ d |-> d, par |-> 0, thick |-> 0, rho |-> 0, ori |-> 1, def |-> g ]

Worlds == { w \in [ law : Laws, impl : Impls, comp : {0, 1}, law2 : Laws, impl2 : Impls, comp2 : {0, 1}, d : {2, 3}, shape : {"flat", "skew", "bump"} ] :
              Offered(w.law, w.impl, w.comp) /\ Offered(w.law2, w.impl2, w.comp2) }
Do(op) == UNCHANGED world /\ hist' = Append(hist, op)
Ver == Cardinality({ i \in DOMAIN hist : hist[i][1] \in {"par", "thick", "rho"} }) + 1

New(d, g) == /\ Len(objs) < MaxObj /\ objs' = Append(objs, Def(d, g))
             /\ Do(<< "new", d, g >>) /\ UNCHANGED << con, evs >>
SetDef(o, g, w) == objs' = [objs EXCEPT ![o].def = g] /\ Do(<< "def", o, g, w >>) /\ UNCHANGED << con, evs >>
SetOri(o, g, w) == objs' = [objs EXCEPT ![o].ori = g] /\ Do(<< "ori", o, g, w >>) /\ UNCHANGED << con, evs >>
SetField(f, o, w) == /\ Ver <= MaxVer /\ objs' = [objs EXCEPT ![o][f] = Ver]
                     /\ Do(<< f, o, Ver, w >>) /\ UNCHANGED << con, evs >>
Copy(o) == /\ Len(objs) < MaxObj /\ objs' = Append(objs, objs[o])
           /\ Do(<< "copy", o >>) /\ UNCHANGED << con, evs >>
\* a material put into the container by reference is a copy, by pointer the object itself
Put(p, o, w) ==
  IF w = 0 THEN /\ Len(objs) < MaxObj /\ objs' = Append(objs, objs[o]) /\ con' = [con EXCEPT ![p] = Len(objs) + 1]
                /\ Do(<< "put", p, o, w >>) /\ UNCHANGED evs
  ELSE con' = [con EXCEPT ![p] = o] /\ Do(<< "put", p, o, w >>) /\ UNCHANGED << objs, evs >>
\* the whole container at once: the patches take turns
Fill(o, q) == con' = [p \in Patches |-> IF p % 2 = 1 THEN o ELSE q] /\ Do(<< "fill", o, q >>) /\ UNCHANGED << objs, evs >>
Full == \A p \in Patches : con[p] # 0
\* w: 0 on one object, 1 on the container; u: undeformed geometry given (its index) or 0
MakeEv(kind, w, o, u, g) ==
  /\ Len(evs) < MaxEv /\ (w = 1 => Full)
  /\ LET behind == IF w = 1 THEN con ELSE [p \in Patches |-> o]
         hit == { behind[p] : p \in Patches }
     IN /\ evs' = Append(evs, [kind |-> kind, on |-> behind])
        /\ objs' = [q \in Obj |-> IF q \in hit THEN [objs[q] EXCEPT !.def = g, !.ori = IF u = 0 THEN @ ELSE u] ELSE objs[q]]
  /\ Do(<< "mk", kind, w, o, u, g >>) /\ UNCHANGED con
Ask(o, p, b) == Do(<< "ask", o, p, b >>) /\ UNCHANGED << objs, con, evs >>
AskCon(p, b) == con[p] # 0 /\ Do(<< "askc", p, b >>) /\ UNCHANGED << objs, con, evs >>
AskEv(e, p, b) == Do(<< "aske", e, p, b >>) /\ UNCHANGED << objs, con, evs >>

Init == objs = << >> /\ con = [p \in Patches |-> 0] /\ evs = << >> /\ hist = << >>
        /\ world \in IF Small THEN { [law |-> "SvK"] } ELSE Worlds
Asks == \/ \E o \in Obj, p \in Patches, b \in 0..3 : Ask(o, p, b)
        \/ \E p \in Patches, b \in 0..3 : AskCon(p, b)
        \/ \E e \in DOMAIN evs, p \in Patches, b \in 0..3 : AskEv(e, p, b)
Changes ==
  \/ \E d \in 1..2, g \in Geos : New(d, g)
  \/ \E o \in Obj, g \in Geos, w \in 0..1 : SetDef(o, g, w)
  \/ \E o \in Obj, g \in 1..2, w \in 0..1 : SetOri(o, g, w)
  \/ \E o \in Obj, f \in {"par", "thick", "rho"}, w \in 0..2 : SetField(f, o, w)
  \/ \E o \in Obj : Copy(o)
  \/ \E p \in Patches, o \in Obj, w \in 0..2 : Put(p, o, w)
  \/ \E o, q \in Obj : Fill(o, q)
  \/ \E kind \in 0..1, o \in Obj, u \in 0..2, g \in Geos : MakeEv(kind, 0, o, u, g)
  \/ \E kind \in 0..1, u \in 0..2, g \in Geos : MakeEv(kind, 1, 0, u, g)
\* asking in between is what reveals remembered state: histories alternate
End == Len(hist) = MaxLen /\ Do(<< "end" >>) /\ UNCHANGED << objs, con, evs >>
Next == End \/ (Len(hist) < MaxLen /\ (IF Len(objs) = 0 THEN \E d \in 1..2, g \in Geos : New(d, g) ELSE Asks \/ Changes))
Spec == Init /\ [][Next]_vars

\* what the specification promises about itself
TypeOK == /\ \A o \in Obj : objs[o].def \in Geos /\ objs[o].ori \in 1..2
          /\ \A p \in Patches : con[p] \in 0..Len(objs)
          /\ \A e \in DOMAIN evs : \A p \in Patches : evs[e].on[p] \in Obj
Op == hist'[Len(hist')]
Touched == CASE Op[1] \in {"def", "ori", "par", "thick", "rho"} -> {Op[2]}
             [] Op[1] = "mk" -> IF Op[3] = 1 THEN { con[p] : p \in Patches } ELSE {Op[4]}
             [] OTHER -> {}
\* an operation changes only the objects it names: copies and neighbours are independent, asking changes nothing
Frame == [][\A o \in Obj : o \in Touched \/ objs'[o] = objs[o]]_vars
Pure == [][Op[1] \in {"ask", "askc", "aske"} => objs' = objs /\ con' = con /\ evs' = evs]_vars

Emit == (Len(hist) = MaxLen + 1) => PrintT("SCEN " \o ToJson([ops |-> hist, np |-> NPatch] @@ world))
NoHist == << objs, con, evs >>
=============================================================================
