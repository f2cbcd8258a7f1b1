------------------------------- MODULE OpsTrace -------------------------------
(* Validates recorded lives of material objects (MatOps) against the laws of   *)
(* MatTrace: the specification carries the definition of every object through  *)
(* the recorded operations and every answer must be the law's value for that   *)
(* definition at that point, whatever was asked or changed before.             *)
EXTENDS MatTrace
VARIABLES objs, con, evs, geo
ovars == << l, mat, pts, ans, nbad, objs, con, evs, geo >>

\* a definition: law, impl, comp, d; per parameter and patch an affine field; thickness and density per patch
Obj == DOMAIN objs
Keep == UNCHANGED << mat, pts, ans, nbad >>
OInit == Init /\ objs = << >> /\ con = << >> /\ evs = << >> /\ geo = << >>
Start == /\ Rd.t = "start" /\ objs' = << >> /\ evs' = << >> /\ con' = [p \in 1..Rd.np |-> 0] /\ geo' = Rd.geo
         /\ Keep
New == /\ Rd.t = "new" /\ objs' = Append(objs, [Rd EXCEPT !.t = "obj"]) /\ Keep /\ UNCHANGED << con, evs, geo >>
SetDef == Rd.t = "def" /\ objs' = [objs EXCEPT ![Rd.o].def = Rd.g] /\ Keep /\ UNCHANGED << con, evs, geo >>
SetOri == Rd.t = "ori" /\ objs' = [objs EXCEPT ![Rd.o].ori = Rd.g] /\ Keep /\ UNCHANGED << con, evs, geo >>
SetPar == Rd.t = "par" /\ objs' = [objs EXCEPT ![Rd.o].par[Rd.i] = Rd.f] /\ Keep /\ UNCHANGED << con, evs, geo >>
SetThick == Rd.t = "thick" /\ objs' = [objs EXCEPT ![Rd.o].thick = Rd.f] /\ Keep /\ UNCHANGED << con, evs, geo >>
SetRho == Rd.t = "rho" /\ objs' = [objs EXCEPT ![Rd.o].rho = Rd.f] /\ Keep /\ UNCHANGED << con, evs, geo >>
Copy == Rd.t = "copy" /\ objs' = Append(objs, objs[Rd.o]) /\ Keep /\ UNCHANGED << con, evs, geo >>
Put == /\ Rd.t = "put"
       /\ IF Rd.w = 0 THEN objs' = Append(objs, objs[Rd.o]) /\ con' = [con EXCEPT ![Rd.p] = Len(objs) + 1]
          ELSE con' = [con EXCEPT ![Rd.p] = Rd.o] /\ objs' = objs
       /\ Keep /\ UNCHANGED << evs, geo >>
Make == /\ Rd.t = "mk"
        /\ LET behind == IF Rd.w = 1 THEN con ELSE [p \in DOMAIN con |-> Rd.o]
               hit == { behind[p] : p \in DOMAIN con }
           IN /\ evs' = Append(evs, behind)
              /\ objs' = [q \in Obj |-> IF q \in hit THEN [objs[q] EXCEPT !.def = Rd.g, !.ori = IF Rd.u = 0 THEN @ ELSE Rd.u] ELSE objs[q]]
        /\ Keep /\ UNCHANGED << con, geo >>
\* whom the following questions are put to: object, container patch or evaluator; at which points of the patch
Select ==
  /\ Rd.t = "sel"
  /\ LET o == objs[IF Rd.to = "obj" THEN Rd.o ELSE IF Rd.to = "con" THEN con[Rd.p] ELSE evs[Rd.o][Rd.p]]
         At(f) == f[Rd.p]
     IN /\ mat' = [ law |-> o.law, impl |-> o.impl, comp |-> o.comp, d |-> o.d, motion |-> "ops", ng |-> 0,
                    p0 |-> [i \in DOMAIN o.par |-> At(o.par[i])[1]],
                    pgx |-> [i \in DOMAIN o.par |-> At(o.par[i])[2]],
                    pgy |-> [i \in DOMAIN o.par |-> At(o.par[i])[3]],
                    thick |-> At(o.thick), rho |-> At(o.rho) ]
        /\ pts' = [ n |-> Len(Rd.k), m |-> Rd.m,
                    p |-> [i \in 1..Len(Rd.k) |->
                             [ x |-> geo[o.ori][Rd.p][Rd.k[i]].x, ori |-> geo[o.ori][Rd.p][Rd.k[i]].s,
                               def |-> geo[o.def][Rd.p][Rd.k[i]].s, z |-> Rd.z[i] ]] ]
        /\ ans' = NoAns /\ UNCHANGED << nbad, objs, con, evs, geo >>
Asked == Query /\ UNCHANGED << objs, con, evs, geo >>
Broke == Abort /\ UNCHANGED << objs, con, evs, geo >>
\* the queries that hand back the definition itself
ONext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ (Start \/ New \/ SetDef \/ SetOri \/ SetPar \/ SetThick \/ SetRho \/ Copy \/ Put \/ Make \/ Select \/ Asked \/ Broke)
         /\ TLCSet(1, nbad')
OSpec == OInit /\ [][ONext]_ovars
=============================================================================
