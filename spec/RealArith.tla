------------------------------- MODULE RealArith -------------------------------
(* Real arithmetic for the shell specification.                              *)
(* A real is the pair <<hi, lo>> of the two 32-bit words of an IEEE double;  *)
(* a vector is a sequence of reals.  The operators below are evaluated by    *)
(* the TLC override java/RealOverrides.java; the TLA+ bodies are only their  *)
(* signatures (TLC's own integers have 32 bits).                             *)
EXTENDS Integers, Sequences
LOCAL Undef == CHOOSE x : x \notin {}
RI(n) == Undef          \* the integer n as a real
RQ(p, q) == Undef       \* p / q
RParse(s) == Undef      \* decimal literal
RStr(x) == Undef        \* printing
VStr(x) == Undef
RAdd(x, y) == Undef
RSub(x, y) == Undef
RMul(x, y) == Undef
RDiv(x, y) == Undef
RNeg(x) == Undef
RAbs(x) == Undef
RSqrt(x) == Undef
RLn(x) == Undef
RExp(x) == Undef
RCos(x) == Undef
RSin(x) == Undef
RPow(x, y) == Undef
RMax(x, y) == Undef
RMin(x, y) == Undef
RLeq(x, y) == Undef     \* FALSE when either side is NaN
RLt(x, y) == Undef
RFinite(x) == Undef
VAdd(x, y) == Undef
VSub(x, y) == Undef
VScale(s, x) == Undef
VDot(x, y) == Undef
VSum(x) == Undef
VMaxAbs(x) == Undef
VFinite(x) == Undef
VFind(u, x, tol) == Undef  \* index of the only entry of u within tol of x; 0: none, -1: several
VDist(x, y) == Undef    \* max norm of the difference
VClose(x, y, scale, tol) == Undef  \* max|x-y| <= tol*max(scale,|x|,|y|)
=============================================================================
