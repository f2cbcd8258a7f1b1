------------------------------- MODULE Catalogue -------------------------------
(* The material laws the library offers and the forms they come in.            *)
EXTENDS Naturals
Laws == {"SvK", "NH", "NHx", "MR", "OG"}
Impls == {"A", "G", "S"}
\* the catalogue: law, implementation, compressible
Offered(lw, im, c) ==
  CASE lw = "SvK" -> im = "A" /\ c = 0
    [] lw = "NH"  -> TRUE
    [] lw = "NHx" -> c = 1
    [] lw = "MR"  -> TRUE
    [] lw = "OG"  -> im = "S"
\* which of them the file format has a name for
Storable(lw, im) == CASE lw = "OG" -> im = "S" [] OTHER -> im = "A"
=============================================================================
