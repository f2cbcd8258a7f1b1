------------------------------- MODULE Convert -------------------------------
(* Which coefficients of a displacement field are one and the same unknown,    *)
(* which are prescribed, and by what: coupling of patches and supports.        *)
(* Coefficients of all patches are numbered through; n1 of them in a row.      *)
EXTENDS RealArith, Integers, Sequences, FiniteSets, SequencesExt
All(P) == 1..Len(P.cps)
PatchOf(P, i) == CHOOSE p \in 1..Len(P.size) : i > P.size[p].off /\ i <= P.size[p].off + P.size[p].n1 * P.size[p].n2
\* k-th coefficient of the row at distance r from side s of patch p
RowLen(z, s) == IF s <= 2 THEN z.n2 ELSE z.n1
RowAt(P, p, s, r, k) ==
  LET z == P.size[p]
      a == CASE s = 1 -> r [] s = 2 -> z.n1 - 1 - r [] OTHER -> k - 1
      b == CASE s = 3 -> r [] s = 4 -> z.n2 - 1 - r [] OTHER -> k - 1
  IN z.off + 1 + a + z.n1 * b
Row(P, p, s) == { RowAt(P, p, s, 0, k) : k \in 1..RowLen(P.size[p], s) }
Edge(P) == UNION { Row(P, p, s) : p \in 1..Len(P.size), s \in 1..4 }
CornerAt(P, p, q) == LET z == P.size[p] IN z.off + 1 + (IF q % 2 = 0 THEN z.n1 - 1 ELSE 0) + z.n1 * (IF q > 2 THEN z.n2 - 1 ELSE 0)
Unity == RI(1)
Tiny == RParse("1e-7")
Same(P, i, j) == VClose(P.cps[i], P.cps[j], Unity, Tiny)
On(c, k) == k.comp = -1 \/ k.comp + 1 = c
Pick(cs) == { cs[k] : k \in 1..Len(cs) }
\* label = one of the coefficients carrying it
\* pairs of coefficients that are one unknown in component c
Meeting(P) == IF P.cont # 0 THEN {} ELSE LET E == Edge(P) pat == [i \in E |-> PatchOf(P, i)] IN { << i, j >> \in E \X E : i < j /\ pat[i] # pat[j] /\ Same(P, i, j) }
Tied(P, meet, c) ==
  meet \cup
  UNION { LET L == RowLen(P.size[k.patch], k.side) IN
            CASE k.type = "C" -> { << RowAt(P, k.patch, k.side, 0, q), RowAt(P, k.patch, k.side, 1, q) >> : q \in 1..L }
              [] k.type = "X" -> { << RowAt(P, k.patch, k.side, 0, 1), RowAt(P, k.patch, k.side, 0, q) >> : q \in 2..L }
              [] OTHER -> {} : k \in { x \in Pick(P.sides) : On(c, x) } } \cup
  UNION { { << RowAt(P, k.p1, k.s1, 0, 1), j >> : j \in Row(P, k.p1, k.s1) \cup Row(P, k.p2, k.s2) } : k \in { x \in Pick(P.couples) : On(c, x) } }
RECURSIVE Merge(_, _, _)
Merge(lab, prs, k) ==
  IF k > Len(prs) THEN lab
  ELSE LET a == lab[prs[k][1]] b == lab[prs[k][2]] IN
       Merge(IF a = b THEN lab ELSE [i \in DOMAIN lab |-> IF lab[i] = b THEN a ELSE lab[i]], prs, k + 1)
Labels(P, meet, c) == Merge([i \in All(P) |-> i], SetToSeq(Tied(P, meet, c)), 1)
\* prescribed values: set of <<coefficient, value>>
Aff1(co, x) == RAdd(RAdd(co[1], RMul(co[2], x[1])), RAdd(RMul(co[3], x[2]), RMul(co[4], x[3])))
Given(P, c) ==
  UNION { { << i, Aff1(k.c[IF k.comp = -1 THEN c ELSE 1], IF k.par THEN P.anc[i] ELSE P.cps[i]) >> : i \in Row(P, k.patch, k.side) }
          : k \in { x \in Pick(P.sides) : x.type = "D" /\ On(c, x) } } \cup
  { << CornerAt(P, k.patch, k.corner), k.v >> : k \in { x \in Pick(P.corners) : On(c, x) } }
Slight == RParse("1e-9")
Near0(a, b) == a = b \/ VClose(<< a >>, << b >>, Unity, Slight)
Layout(P, c, meet) ==
  LET lab == Labels(P, meet, c)
      giv == Given(P, c)
      fixed == { lab[x[1]] : x \in giv }
      clear == \A x, y \in giv : lab[x[1]] = lab[y[1]] => Near0(x[2], y[2])
  IN [lab |-> lab, fixed |-> fixed, free |-> { lab[i] : i \in All(P) } \ fixed, clear |-> clear,
      val |-> [f \in fixed |-> (CHOOSE x \in giv : lab[x[1]] = f)[2]]]
Layouts(P) == LET meet == Meeting(P) IN [c \in 1..P.d |-> Layout(P, c, meet)]
Unknowns(L) == LET R[c \in 0..Len(L)] == IF c = 0 THEN 0 ELSE R[c - 1] + Cardinality(L[c].free) IN R[Len(L)]
=============================================================================
