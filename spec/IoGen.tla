-------------------------------- MODULE IoGen --------------------------------
(* Requests to the factory, and materials that go through files.               *)
EXTENDS Catalogue, Integers, Sequences, TLC, Json
VARIABLES req
\* every combination of numbers, offered or not (material 5, implementation 4: not in the catalogue; implementation 0: composite)
Factory == [kind : {"factory"}, mat : 0..5, imp : 0..4, comp : {0, 1}, rho : {0, 1}, d : {2, 3}, par : {"const", "var"}]
Law == { x \in [law : Laws, impl : Impls, comp : {0, 1}] : Offered(x.law, x.impl, x.comp) }
Kept == { x \in Law : Storable(x.law, x.impl) }
Doors == {"first", "id", "label", "all", "typed", "anyfirst"}
File == [kind : {"file"}, hand : {0, 1}, door : Doors, objs : {1, 2, 3}, tft : {0, 1}, rho : {0, 1}, d : {2, 3}, par : {"const", "var"}]
Cont == [kind : {"cont"}, hand : {0, 1}, objs : {1, 2, 3}, rho : {0, 1}, d : {2, 3}, par : {"const", "var"}]
Init == \/ req \in Factory
        \/ \E f \in File, x \in Law : (f.hand = 1 => x \in Kept) /\ req = f @@ x @@ [kept |-> IF x \in Kept THEN 1 ELSE 0]
        \/ \E c \in Cont, x \in Kept, y \in Kept : req = c @@ x @@ [law2 |-> y.law, impl2 |-> y.impl, comp2 |-> y.comp]
Next == UNCHANGED req
FactoryEmit == req.kind = "factory" => PrintT("SCEN " \o ToJson(req))
FileEmit == req.kind = "file" => PrintT("SCEN " \o ToJson(req))
ContEmit == req.kind = "cont" => PrintT("SCEN " \o ToJson(req))
=============================================================================
