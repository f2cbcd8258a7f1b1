-------------------------------- MODULE MatGen --------------------------------
(* The space of material requests: which laws are offered in which form, on    *)
(* which geometry and motion.  Every state is one request.                     *)
EXTENDS Catalogue, Naturals, Sequences, TLC, Json
VARIABLES req
Shapes(d) == IF d = 2 THEN {"flat", "skew", "bump"} ELSE {"flat", "skew", "bump", "cyl"}
Motions == {"zero", "rigid", "iso", "homog", "trace0", "tiny", "small", "mid", "large"}
Requests == { r \in [ law : Laws, impl : Impls, comp : {0, 1}, d : {2, 3}, shape : {"flat", "skew", "bump", "cyl"},
                      motion : Motions, par : {"const", "var"} ] :
                /\ Offered(r.law, r.impl, r.comp)
                /\ r.shape \in Shapes(r.d)
                /\ (r.motion = "trace0" => r.shape = "flat") }
Init == req \in Requests
Next == UNCHANGED req
Emit == PrintT("SCEN " \o ToJson(req))
=============================================================================
