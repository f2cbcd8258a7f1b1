-------------------------------- MODULE IntGen --------------------------------
(* Requests for thickness-integrated quantities: the material requests of      *)
(* MatGen, the way the integrator is built, the number of points through the   *)
(* thickness and the number of patches.                                        *)
EXTENDS MatGen
VARIABLES how
Ctors == {"ptr", "uptr", "cont", "ptr2", "uptr2", "cont2"}   \* ...2: undeformed geometry given as well
Hows == [ctor : Ctors, ng : {0, 1, 2, 3, 5}, np : {1, 2, 3}]   \* ng = 0: the default
IInit == Init /\ how \in Hows
INext == UNCHANGED << req, how >>
IEmit == PrintT("SCEN " \o ToJson(req @@ how))
=============================================================================
