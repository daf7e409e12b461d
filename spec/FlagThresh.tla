------------------------------ MODULE FlagThresh ------------------------------
(* Thresholding and broadcasting of per-antenna flags, shared by FlagAlgebra (C12) and SmoothGrid (C20).  Flags are
   sets of <<time, channel>> pixels, 1-based; thresholds are fractions <<numerator, denominator>>.               *)
EXTENDS Naturals, FiniteSets, FiniteSetsExt
Grid(nt, nf) == (1..nt) \X (1..nf)
\* k of n exceeds the fraction th; nothing out of nothing exceeds nothing
Exceeds(k, n, th) == n > 0 /\ k * th[2] > th[1] * n
FullRows(F, nt, nf) == {t \in 1..nt : \A f \in 1..nf : <<t, f>> \in F}
FlaggedRows(A, nt, nf) == FullRows(A, nt, nf)
FlaggedCols(A, nt, nf) == {f \in 1..nf : \A t \in 1..nt : <<t, f>> \in A}
FreqPass(A, nt, nf, th) == LET r == (1..nt) \ FlaggedRows(A, nt, nf)
   IN A \cup {p \in Grid(nt, nf) : Exceeds(Cardinality({t \in r : <<t, p[2]>> \in A}), Cardinality(r), th)}
TimePass(A, nt, nf, th) == LET c == (1..nf) \ FlaggedCols(A, nt, nf)
   IN A \cup {p \in Grid(nt, nf) : Exceeds(Cardinality({f \in c : <<p[1], f>> \in A}), Cardinality(c), th)}
RECURSIVE Loop(_, _, _, _, _)
Loop(A, nt, nf, tf, tt) == LET B == TimePass(FreqPass(A, nt, nf, tf), nt, nf, tt) IN IF B = A THEN A ELSE Loop(B, nt, nf, tf, tt)
Thresh(fl, nt, nf, tf, tt, ta) ==
   LET all == {p \in Grid(nt, nf) : \A a \in DOMAIN fl : p \in fl[a]}
       b == Loop(all, nt, nf, tf, tt)
       g == [a \in DOMAIN fl |-> fl[a] \cup b]
       free(a) == nt * nf - Cardinality(g[a])
       most == Max({free(a) : a \in DOMAIN fl})
   IN [a \in DOMAIN fl |-> IF free(a) * ta[2] < (ta[2] - ta[1]) * most THEN Grid(nt, nf) ELSE g[a]]
=============================================================================
