------------------------------ MODULE BlKeys ------------------------------
(* Shared vocabulary: physical baselines, orientation, polarisation strings, Gaussian integers.
   A key is <<i, j, p>> with antenna numbers i, j and a polarisation string p.  The same physical
   baseline may be named in two orientations: Rev swaps the antennas and the two feeds.           *)
EXTENDS Integers, Sequences, FiniteSets

AllPols == {"nn", "ne", "en", "ee"}
ConjPol(p) == IF p = "ne" THEN "en" ELSE IF p = "en" THEN "ne" ELSE p
Rev(k) == <<k[2], k[1], ConjPol(k[3])>>
PolRank(p) == CASE p = "ee" -> 0 [] p = "en" -> 1 [] p = "ne" -> 2 [] p = "nn" -> 3 [] OTHER -> 4
\* canonical name of the physical baseline
IsCanon(k) == k[1] < k[2] \/ (k[1] = k[2] /\ PolRank(k[3]) <= PolRank(ConjPol(k[3])))
Canon(k) == IF IsCanon(k) THEN k ELSE Rev(k)
Flipped(k) == ~IsCanon(k)

\* Gaussian integers <<re, im>>
GConj(a) == <<a[1], -a[2]>>
GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
GMul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
GNeg(a) == <<-a[1], -a[2]>>
GNorm(a) == a[1]*a[1] + a[2]*a[2]
GDivides(b, a) == GNorm(b) # 0 /\ LET n == GMul(a, GConj(b)) IN (n[1] % GNorm(b) = 0) /\ (n[2] % GNorm(b) = 0)
IDiv(x, d) == IF x >= 0 THEN x \div d ELSE -((-x) \div d)      \* truncation toward zero
GDiv(a, b) == LET n == GMul(a, GConj(b)) IN <<IDiv(n[1], GNorm(b)), IDiv(n[2], GNorm(b))>>
Orient(k, v) == IF Flipped(k) THEN GConj(v) ELSE v
=============================================================================
