------------------------------- MODULE TimeAvg -------------------------------
(* C21.  Averaging in time and interleaving (hera_cal.frf).  A waterfall is a function on times x channels of small
   integers (real and imaginary parts), flags and sample counts.  De-interleaving deals the integrations round robin
   into n sets; averaging cuts a set into windows of Navg integrations, the last one possibly shorter; the result of
   a window and channel is the weighted sum, the weight, the number of unflagged samples and whether anything was
   unflagged.  Averages are kept as <<numerator, denominator>> so nothing is rounded.                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS MaxT, MaxF
VARIABLES pc, in, sets, out
vars == <<pc, in, sets, out>>
RE(S) == {RandomElement(S)}
Row(nf, S) == TLCEval([f \in 1..nf |-> RandomElement(S)])
RowB(nf, k) == TLCEval([f \in 1..nf |-> RandomElement(1..4) <= k])
Make ==
   /\ pc = "start" /\ pc' = "deal"
   /\ \E nt \in RE(2..MaxT), nf \in RE(1..MaxF), n \in RE({1, 1, 2, 3, 4}), fk \in RE(0..4), q \in RE(3..30) :
      in' = [nt |-> nt, nf |-> nf, n |-> IF 2 * n <= nt THEN n ELSE 1,
             re |-> TLCEval([t \in 1..nt |-> Row(nf, -9..9)]), im |-> TLCEval([t \in 1..nt |-> Row(nf, -9..9)]),
             fl |-> TLCEval([t \in 1..nt |-> RowB(nf, IF RandomElement(1..5) = 1 THEN 4 ELSE fk)]),
             ns |-> TLCEval([t \in 1..nt |-> Row(nf, 1..4)]),
             wgt |-> RandomElement({"n", "favg", "flat"}),
             q |-> q,                                                  \* averaging time in quarters of an integration
             eqt |-> RandomElement(BOOLEAN), eqn |-> RandomElement(BOOLEAN)]
   /\ UNCHANGED <<sets, out>>
\* ---- dealing integrations ---------------------------------------------------------------------------------------
SetLen(i) == (in.nt - i) \div in.n + 1
Deal == /\ pc = "deal" /\ pc' = "avg"
        /\ sets' = [i \in 1..in.n |-> [k \in 1..SetLen(i) |-> i + (k - 1) * in.n]]
        /\ UNCHANGED <<in, out>>
\* round robin over the sets puts every integration back
Weave(ss) == LET most == Max({Len(ss[i]) : i \in DOMAIN ss}) IN
   FoldLeft(LAMBDA acc, k : FoldLeft(LAMBDA a, i : IF k <= Len(ss[i]) THEN Append(a, ss[i][k]) ELSE a, acc, [i \in 1..Len(ss) |-> i]), <<>>, [k \in 1..most |-> k])
\* ---- averaging --------------------------------------------------------------------------------------------------
\* averaging time over the spacing of a set, rounded to the nearest whole number (never exactly half way)
Navg(len) == Min({len, (2 * in.q + 4 * in.n) \div (8 * in.n)})
HalfWay == (2 * in.q + 4 * in.n) % (8 * in.n) = 0
Ceil(a, b) == (a + b - 1) \div b
Window(s, na, w) == {s[k] : k \in {k \in DOMAIN s : (w - 1) * na < k /\ k <= w * na}}
W(t, f) == CASE in.wgt = "n" -> in.ns[t][f]
             [] in.wgt = "favg" -> FoldLeft(LAMBDA a, b : a + b, 0, in.ns[t])
             [] OTHER -> 1
Sum(S, g(_)) == FoldSet(LAMBDA t, a : a + g(t), 0, S)
Cellv(S, f) == LET U == {t \in S : ~in.fl[t][f]} IN
   [re |-> Sum(U, LAMBDA t : W(t, f) * in.re[t][f]), im |-> Sum(U, LAMBDA t : W(t, f) * in.im[t][f]),
    w |-> Sum(U, LAMBDA t : W(t, f)), n |-> Sum(U, LAMBDA t : in.ns[t][f]), fl |-> U = {}]
Mid(S) == <<Sum(S, LAMBDA t : t), Cardinality(S)>>
AvgSet(s) == LET na == Navg(Len(s)) IN
   [w \in 1..Ceil(Len(s), na) |-> LET S == Window(s, na, w) IN [t |-> Mid(S), c |-> [f \in 1..in.nf |-> Cellv(S, f)]]]
Avg == /\ pc = "avg" /\ ~HalfWay /\ Navg(in.nt) > 0 /\ pc' = "emit"
       /\ out' = [i \in 1..in.n |-> AvgSet(sets[i])]
       /\ UNCHANGED <<in, sets>>
Emit == /\ pc = "emit" /\ pc' = "end" /\ UNCHANGED <<in, sets, out>>
        /\ CSVWrite("%1$s", <<ToJson([in |-> in, sets |-> sets, out |-> out])>>, IOEnv.OUT)
Init == pc = "start" /\ in = <<>> /\ sets = <<>> /\ out = <<>>
Next == Make \/ Deal \/ Avg \/ Emit
\* ---- what a user relies on ----------------------------------------------------------------------------------------
Restores == pc \notin {"start", "deal"} => Weave(sets) = [t \in 1..in.nt |-> t]
Done == pc \in {"emit", "end"}
\* samples and weighted data are conserved: nothing is lost in, or shared between, windows
Conserves == Done => \A f \in 1..in.nf :
   /\ FoldLeft(LAMBDA a, i : FoldLeft(LAMBDA b, w : b + w.c[f].n, a, out[i]), 0, [i \in 1..in.n |-> i]) = Sum({t \in 1..in.nt : ~in.fl[t][f]}, LAMBDA t : in.ns[t][f])
   /\ FoldLeft(LAMBDA a, i : FoldLeft(LAMBDA b, w : b + w.c[f].re, a, out[i]), 0, [i \in 1..in.n |-> i]) = Sum({t \in 1..in.nt : ~in.fl[t][f]}, LAMBDA t : W(t, f) * in.re[t][f])
WithinBounds == Done => \A i \in 1..in.n : \A k \in DOMAIN out[i] : \A f \in 1..in.nf : LET c == out[i][k].c[f] IN
   (c.fl <=> c.w = 0) /\ -9 * c.w <= c.re /\ c.re <= 9 * c.w
=============================================================================
