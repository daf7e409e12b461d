----------------------------- MODULE AbscalMatch -----------------------------
(* C24.  What absolute calibration compares with what (hera_cal.abscal): integrations by sidereal time, model files by
   overlap in sidereal time, baselines by antennas or by separation, samples by flags and noise, and the whole driver.
   Sidereal time is a circle of N ticks.                                                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS N
VARIABLES pc, what, out
vars == <<pc, what, out>>
RE(S) == {RandomElement(S)}
Pick(S) == RandomElement(S)
Mod(a) == a % N
Dist(a, b) == Min({Mod(a - b), Mod(b - a)})
\* ---- integrations ------------------------------------------------------------------------------------------------------
Diffs(seq) == SortSeq([i \in 1..(Len(seq) - 1) |-> Dist(seq[i], seq[i + 1])], LAMBDA a, b : a < b)
TwiceMedian(s) == LET n == Len(s) IN IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]
Closest(d, M) == {i \in DOMAIN M : \A j \in DOMAIN M : Dist(d, M[i]) <= Dist(d, M[j])}
\* M in order of time; limit in tenths of the typical model spacing; {} if unpaired
Partner(d, M, limit) == IF Len(M) = 0 THEN {}
                        ELSE IF Len(M) = 1 \/ 20 * Dist(d, M[CHOOSE i \in Closest(d, M) : TRUE]) <= limit * TwiceMedian(Diffs(M)) THEN Closest(d, M) ELSE {}
\* decisions that rounding must not be able to turn
ClearPair(d, M, limit) == /\ Cardinality({M[i] : i \in Closest(d, M)}) <= 1
                          /\ Len(M) > 1 => LET x == 20 * Dist(d, M[CHOOSE i \in Closest(d, M) : TRUE]) - limit * TwiceMedian(Diffs(M)) IN x > 20 \/ x < -20
Walk(start, steps) == FoldLeft(LAMBDA acc, s : Append(acc, acc[Len(acc)] + s), <<start>>, steps)
Times ==
   /\ pc = "start" /\ what' = "times" /\ pc' = "emit"
   /\ \E s \in RE({0, N - 400, Pick(0..(N - 1))}), n \in RE(0..8), limit \in RE({3, 5, 5, 10, 25, 100}), u \in RE({20, 50, 200}) :
      \E M \in {TLCEval(Walk(s, [i \in 1..n |-> IF Pick(1..6) = 1 THEN Pick(1..(4 * u)) ELSE u]))} :
      \E D \in {TLCEval(Walk(s + Pick(-3 * u..((n + 2) * u)), [i \in 1..Pick(0..6) |-> Pick(1..(2 * u))]))} :
      /\ Cardinality({Mod(M[i]) : i \in DOMAIN M}) = Len(M)
      /\ \A i \in DOMAIN D : ClearPair(D[i], M, limit)
      /\ out' = [data |-> [i \in DOMAIN D |-> Mod(D[i])], model |-> [i \in DOMAIN M |-> Mod(M[i])], limit |-> limit,
                 pair |-> [i \in DOMAIN D |-> Partner(D[i], M, limit)]]
\* ---- files: [first, last] integrations and the spacing of the model -----------------------------------------------------------
Mod2(x) == x % (2 * N)
\* the data run from a to b (ends included); the file covers half a spacing more at either end (everything doubled)
Overlap(a, b, f, l, sp) == LET lo == 2 * f - sp  hi == 2 * l + sp IN Mod2(2 * a - lo) < hi - lo \/ Mod2(lo - 2 * a) < 2 * (b - a)
ClearEdge(a, b, f, l, sp) == \A x \in {2 * a, 2 * b}, y \in {2 * f - sp, 2 * l + sp} : Mod2(x - y) > 4 /\ Mod2(y - x) > 4
FirstLast(start, nper, gaps, sp) == \* files of nper integrations each
   FoldLeft(LAMBDA acc, g : Append(acc, acc[Len(acc)] + nper * sp + g), <<start>>, gaps)
Files ==
   /\ pc = "start" /\ what' = "files" /\ pc' = "emit"
   /\ \E nf \in RE(1..13), nper \in RE(1..4), nd \in RE(1..6), kind \in RE({"full", "part", "gaps"}), s \in RE({0, N - 3000, Pick(0..(N - 1))}) :
      \E spc \in {TLCEval(IF kind = "full" THEN 2 * (N \div (2 * nf * nper)) ELSE Pick({20, 100, 1000}))} :
      \E gaps \in {TLCEval([i \in 1..(nf - 1) |-> IF kind = "gaps" /\ Pick(1..2) = 1 THEN Pick(1..(3 * spc)) ELSE 0])} :
      \E starts \in {TLCEval(FirstLast(s, nper, gaps, spc))} :
         LET total == starts[nf] + (nper - 1) * spc - s
         IN \E a \in RE({Pick((s - 3 * spc)..(s + total + 3 * spc)), Pick(0..(N - 1))}), dd \in RE({10, spc, spc + 3, 2 * spc}) :
         LET b == a + (nd - 1) * dd
             F(i) == starts[i]
             L(i) == starts[i] + (nper - 1) * spc
         IN /\ total + spc <= N
            /\ b - a < N \div 3
            /\ \A i \in 1..nf : ClearEdge(a, b, F(i), L(i), spc)
            /\ out' = [spacing |-> spc, files |-> [i \in 1..nf |-> [k \in 1..nper |-> Mod(F(i) + (k - 1) * spc)]],
                       data |-> [k \in 1..nd |-> Mod(a + (k - 1) * dd)], dspacing |-> dd,
                       match |-> {i \in 1..nf : Overlap(a, b, F(i), L(i), spc)}]
\* ---- baselines --------------------------------------------------------------------------------------------------------------
Grid == (0..3) \X (0..2)
Vec(P, b) == <<P[b[2]][1] - P[b[1]][1], P[b[2]][2] - P[b[1]][2]>>
Neg(v) == <<0 - v[1], 0 - v[2]>>
Len2(v) == v[1] * v[1] + v[2] * v[2]
Rev(b) == <<b[2], b[1], b[3]>>
\* an array: antennas placed on distinct points of a grid
Layout(nums) == LET sites == SetToSeq(RandomSubset(Cardinality(nums), Grid))  order == SetToSeq(nums)
                IN [a \in nums |-> sites[CHOOSE i \in DOMAIN order : order[i] = a]]
AllBls(P, pols, autos) == UNION {{<<b[1], b[2], p>> : b \in {b \in (DOMAIN P) \X (DOMAIN P) : b[1] < b[2] \/ (autos /\ b[1] = b[2])}} : p \in pols}
Flip(S) == {IF Pick(1..2) = 1 THEN b ELSE Rev(b) : b \in S}
Same(P, b, Q, c) == b[3] = c[3] /\ (Vec(P, b) = Vec(Q, c) \/ Vec(P, b) = Neg(Vec(Q, c)))
\* keep one baseline per separation
Thin(P, S) == {b \in S : \A c \in S : Same(P, b, P, c) => (c = b \/ <<b[1], b[2]>> = <<Min({b[1], c[1]}), IF b[1] = c[1] THEN Min({b[2], c[2]}) ELSE b[2]>>)}
Passes(P, S, pols, lo, hi) == {b \in S : b[3] \in pols /\ 2 * Len2(Vec(P, b)) > lo /\ 2 * Len2(Vec(P, b)) < hi}
\* the model's counterpart of b, pointing the way b points: none or one
Counter(P, b, Q, M, red, autos) ==
   IF ~red THEN {IF c = b THEN c ELSE Rev(c) : c \in {c \in M : c = b \/ c = Rev(b)}}
   ELSE {IF Vec(Q, c) = Vec(P, b) THEN c ELSE Rev(c) : c \in {c \in M : Same(P, b, Q, c) /\ (autos \/ b[1] # b[2])}}
Bls ==
   /\ pc = "start" /\ what' = "bls" /\ pc' = "emit"
   /\ \E red \in RE({TRUE, TRUE, FALSE}), redsol \in RE(BOOLEAN), autos \in RE(BOOLEAN), nd \in RE(2..6), nm \in RE(2..6), same \in RE(BOOLEAN) :
      \E dn \in {TLCEval(RandomSubset(nd, 0..40))} : \E mn \in {TLCEval(IF same \/ ~red THEN dn ELSE RandomSubset(nm, 0..40))} :
      \E P \in {TLCEval(Layout(dn))} : \E Q \in {TLCEval(IF same \/ ~red THEN P ELSE Layout(mn))} :
      \E dp \in RE({{"ee"}, {"ee", "nn"}}), mp \in RE({{"ee"}, {"ee", "nn"}, {"nn"}}), keep \in RE({{}, {"ee"}, {"nn"}, {"ee", "nn"}}) :
      \E dall \in {TLCEval(AllBls(P, dp, red /\ autos))} : \E mall \in {TLCEval(AllBls(Q, mp, red /\ autos))} :
      \E ds \in {TLCEval(RandomSubset(Pick(1..Cardinality(dall)), dall))} : \E ms \in {TLCEval(RandomSubset(Pick(1..Cardinality(mall)), mall))} :
      \E D \in {TLCEval(Flip(IF red /\ redsol THEN Thin(P, ds) ELSE ds))} : \E M \in {TLCEval(Flip(IF red THEN Thin(Q, ms) ELSE ms))} :
      \E lo \in RE({-1, -1, 3, 5}), hi \in RE({999, 999, 9, 17}) :
         LET pols == IF keep = {} THEN dp \cup mp ELSE keep
             Dk == Passes(P, D, pols, lo, hi)
             Mk == Passes(Q, M, pols, lo, hi)
             map == {<<b, c>> : b \in Dk, c \in UNION {Counter(P, b, Q, Mk, red, autos) : b \in Dk}}
             right == {m \in map : m[2] \in Counter(P, m[1], Q, Mk, red, autos)}
         IN out' = [red |-> red, redsol |-> red /\ redsol, autos |-> autos, same |-> same \/ ~red, dpos |-> {<<a, P[a]>> : a \in dn}, mpos |-> {<<a, Q[a]>> : a \in mn},
                    data |-> D, model |-> M, pols |-> keep, lo |-> lo, hi |-> hi, map |-> right]
\* ---- weights -----------------------------------------------------------------------------------------------------------------
Wgts ==
   /\ pc = "start" /\ what' = "wgts" /\ pc' = "emit"
   /\ \E redsol \in RE(BOOLEAN), na \in RE(3..6), nt \in RE(2..3), nf \in RE(2..3) : \E nums \in {TLCEval(RandomSubset(na, 0..20))} : \E P \in {TLCEval(Layout(nums))} :
      \E all \in {TLCEval(AllBls(P, {"ee"}, FALSE))} : \E some \in {TLCEval(RandomSubset(Pick(1..Cardinality(all)), all))} : \E D \in {TLCEval(Flip(IF redsol THEN Thin(P, some) ELSE some))} :
      \E A \in {TLCEval([a \in nums |-> [t \in 1..nt |-> [f \in 1..nf |-> Pick(1..9)]]])} :
      \E AF \in {TLCEval([a \in nums |-> LET dead == Pick(1..8) = 1 IN [t \in 1..nt |-> [f \in 1..nf |-> dead \/ Pick(1..5) = 1]]])} :
      \E DF \in {TLCEval([b \in D |-> [t \in 1..nt |-> [f \in 1..nf |-> Pick(1..4) = 1]]])} : \E MF \in {TLCEval([b \in D |-> [t \in 1..nt |-> [f \in 1..nf |-> Pick(1..5) = 1]]])} :
      \E NS \in {TLCEval([b \in D |-> [t \in 1..nt |-> [f \in 1..nf |-> Pick(0..6)]]])} :
         LET Members(b) == IF redsol THEN {c \in all : Same(P, b, P, c)} ELSE {b}
             \* products of the autocorrelations that tell about the noise of b
             Prod(b, t, f) == SetToSeq({<<c, A[c[1]][t][f] * A[c[2]][t][f]>> : c \in {c \in Members(b) : ~redsol \/ (~AF[c[1]][t][f] /\ ~AF[c[2]][t][f])}})
             Use(b, t, f) == IF DF[b][t][f] \/ MF[b][t][f] THEN 0 ELSE NS[b][t][f]
         IN out' = [redsol |-> redsol, nt |-> nt, nf |-> nf, pos |-> {<<a, P[a]>> : a \in nums}, autos |-> {<<a, A[a], AF[a]>> : a \in nums},
                    bls |-> {[bl |-> b, df |-> DF[b], mf |-> MF[b], ns |-> NS[b],
                              use |-> [t \in 1..nt |-> [f \in 1..nf |-> Use(b, t, f)]],
                              noise |-> [t \in 1..nt |-> [f \in 1..nf |-> [i \in DOMAIN Prod(b, t, f) |-> Prod(b, t, f)[i][2]]]]] : b \in D}]
\* ---- the driver ------------------------------------------------------------------------------------------------------------------
\* a hexagon of seven antennas 0..6; feeds e (and n); model files on another night; tick 0 is midnight in sidereal time
Run ==
   /\ pc = "start" /\ what' = "run" /\ pc' = "emit"
   /\ \E nf \in RE(1..3), nper \in RE(1..3), nd \in RE(2..5), sp \in RE({20, 40}), dsp \in RE({10, 20, 21, 40}), s \in RE(-100..50), limit \in RE({5, 5, 5, 12}), two \in RE({FALSE, FALSE, TRUE}), form \in RE({"full", "full", "unique", "redsol"}) :
      \E gaps \in {TLCEval([i \in 1..(nf - 1) |-> IF Pick(1..4) = 1 THEN Pick(1..60) ELSE 0])} :
      \E starts \in {TLCEval(FirstLast(s, nper, gaps, sp))} : \E a \in RE((s - 15)..(starts[nf] + nper * sp - sp)) :
         LET b == a + (nd - 1) * dsp
             F(i) == starts[i]
             L(i) == starts[i] + (nper - 1) * sp
             match == {i \in 1..nf : Overlap(a, b, F(i), L(i), sp)}
             D == [k \in 1..nd |-> a + (k - 1) * dsp]
             mfiles == SetToSortSeq(match, <)
             M == FlattenSeq([i \in DOMAIN mfiles |-> [k \in 1..nper |-> F(mfiles[i]) + (k - 1) * sp]])
         IN /\ \A i \in 1..nf : ClearEdge(a, b, F(i), L(i), sp)
            /\ \A k \in 1..nd : ClearPair(D[k], M, limit)
            /\ \E dead \in RE({-1, -1, Pick(1..6)}), badf \in RE({{}, {}, {Pick(0..15)}, {3, 4}}), mbadf \in RE({{}, {}, {Pick(0..15)}}), mbadt \in RE({{}, {}, {}, {Pick(0..(Len(M) + 1))}}),
                  spot \in {TLCEval([k \in 1..Pick(0..2) |-> <<Pick(0..6), Pick(1..nd), Pick(0..15)>>])}, nint \in RE({0, 0, 1, 2, 3}), ref \in RE({-1, 0, 2}) :
               LET pair == [k \in 1..nd |-> Partner(D[k], M, limit)]
                   one(k) == CHOOSE i \in pair[k] : TRUE
                   \* flags of redundant calibration, for antenna x
                   RF(x, k, f) == x = dead \/ f \in badf \/ \E q \in DOMAIN spot : spot[q] = <<x, k, f>>
                   \* unpaired, or nothing in the model
                   Gone(k, f) == pair[k] = {} \/ f \in mbadf \/ one(k) \in mbadt
                   Ref(k, f) == IF ref < 0 THEN FALSE ELSE RF(ref, k, f)
               IN out' = [spacing |-> sp, dspacing |-> dsp, data |-> D, files |-> [i \in 1..nf |-> [k \in 1..nper |-> F(i) + (k - 1) * sp]], match |-> match, times |-> M, limit |-> limit, two |-> two,
                          form |-> form, dead |-> dead, badf |-> badf, mbadf |-> mbadf, mbadt |-> mbadt, spot |-> spot, nint |-> nint, ref |-> ref, pair |-> pair,
                          rf |-> [x \in 0..6 |-> [k \in 1..nd |-> {f \in 0..15 : RF(x, k, f)}]],
                          flag |-> [x \in 0..6 |-> [k \in 1..nd |-> {f \in 0..15 : RF(x, k, f) \/ Gone(k, f) \/ Ref(k, f)}]]]
Emit == /\ pc = "emit" /\ pc' = "end" /\ UNCHANGED <<what, out>>
        /\ CSVWrite("%1$s", <<ToJson([what |-> what, out |-> out])>>, IOEnv.OUT)
Init == pc = "start" /\ what = "" /\ out = <<>>
Next == (pc = "start" /\ \E c \in RE(1..10) : (c <= 2 /\ Times) \/ (c \in 3..4 /\ Files) \/ (c \in 5..6 /\ Bls) \/ (c = 7 /\ Wgts) \/ (c >= 8 /\ Run)) \/ Emit
\* ---- what a user relies on ----------------------------------------------------------------------------------------------------------
\* nothing is closer than the partner, and a data integration that coincides with a model integration is paired with it
NearestWins == what = "times" => \A i \in DOMAIN out.data : \A j \in out.pair[i], k \in DOMAIN out.model : Dist(out.data[i], out.model[j]) <= Dist(out.data[i], out.model[k])
ExactIsPaired == what = "times" => \A i \in DOMAIN out.data : (\E k \in DOMAIN out.model : out.model[k] = out.data[i]) => out.pair[i] # {}
\* a file holding a data integration is selected
HolderIsMatched == what = "files" => \A i \in DOMAIN out.files : (\E k \in DOMAIN out.data, m \in DOMAIN out.files[i] : 2 * Dist(out.data[k], out.files[i][m]) < out.spacing - 2) => i \in out.match
\* at most one counterpart
OneCounterpart == what = "bls" => \A m \in out.map, n \in out.map : m[1] = n[1] => m[2] = n[2]
\* unflagged only if paired
UnpairedFlagged == what = "run" => \A x \in DOMAIN out.flag : \A k \in DOMAIN out.data : out.pair[k] = {} => out.flag[x][k] = 0..15
=============================================================================
