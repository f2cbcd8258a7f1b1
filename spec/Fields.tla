------------------------------- MODULE Fields -------------------------------
(* Components of surface tensors in the local Cartesian frame of a surface:    *)
(* first axis along the first parameter line, second one in the tangent plane. *)
EXTENDS Mechanics

Frame(p) == LET e1 == Unit(p[1]) IN << e1, Unit(VSub(p[2], VScale(VDot(p[2], e1), e1))) >>
\* t^{ij} b_i (x) b_j on the frame e
OnFrame(t, b, e) ==
  LET x(a, c) == LET va == << VDot(b[1], e[a]), VDot(b[2], e[a]) >> vc == << VDot(b[1], e[c]), VDot(b[2], e[c]) >> IN
        RAdd(RAdd(RMul(t[1], RMul(va[1], vc[1])), RMul(t[2], RMul(va[2], vc[2]))),
             RMul(t[3], RAdd(RMul(va[1], vc[2]), RMul(va[2], vc[1]))))
  IN << x(1, 1), x(2, 2), x(1, 2) >>
\* contravariant components (stresses) and covariant components (strains) of a surface
Stresses(t, p) == OnFrame(t, << p[1], p[2] >>, Frame(p))
Strains(t, p)  == OnFrame(t, ConBase(<< p[1], p[2] >>), Frame(p))
VonMises(s) == RSqrt(RAdd(RSub(RAdd(Sq(s[1]), Sq(s[2])), RMul(s[1], s[2])), RMul(RI(3), Sq(s[3]))))
=============================================================================
