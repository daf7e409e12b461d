---------------------------- MODULE StackMetrics ----------------------------
(* C29.  Flags, squared Z-scores and selections of LST stacks, in exact arithmetic.  Three modes:
     z     squared Z-scores of every sample against the nights that can be used, predicted variances
     pick  selections of scores by night, baseline, channel and polarization; reductions over axes; selected baselines
     clip  outliers about the median along one axis, one by one or by bands along another; thresholds on flagged fractions *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt, Folds
CONSTANTS NN, NB, NF, Mode
VARIABLES pc, in, out
Draw(S) == RandomElement(IF pc = "" THEN {} ELSE S)
DrawSet(k, S) == RandomSubset(IF pc = "" THEN 0 ELSE k, S)
RE(S) == {Draw(S)}
Rare(n) == Draw(1..n) = 1
Abs(x) == IF x < 0 THEN -x ELSE x
Sum(S, f(_)) == MapThenFoldSet(+, 0, f, LAMBDA s : CHOOSE x \in s : TRUE, S)
Feeds == <<"e", "n">>
AllPols == <<"ee", "nn", "en", "ne">>
F1(p) == IF p \in {"ee", "en"} THEN 1 ELSE 2
F2(p) == IF p \in {"ee", "ne"} THEN 1 ELSE 2
Shuffle(S) == LET k == TLCEval([x \in S |-> Draw(1..1000000)]) IN TLCEval(SetToSortSeq(S, LAMBDA a, b : k[a] < k[b]))
\* ---- scores -------------------------------------------------------------------------------------------------------
Ants == 1..4
Pairs == {p \in Ants \X Ants : p[1] < p[2]}
Idx(np) == (1..NN) \X (1..NB) \X (1..NF) \X (1..np)
MakeZ == /\ Mode = "z" /\ pc = "start" /\ pc' = "made" /\ UNCHANGED out
  /\ \E np \in RE(1..4), bs \in {DrawSet(NB, Pairs)} :
     \E pols \in {Shuffle(DrawSet(np, {"ee", "nn", "en", "ne"}))}, bl \in {Shuffle(bs)},
        re \in {TLCEval([c \in Idx(np) |-> Draw(-3..3)])}, im \in {TLCEval([c \in Idx(np) |-> Draw(-3..3)])},
        n \in {TLCEval([c \in Idx(np) |-> Draw(1..4)])},
        kind \in {TLCEval([c \in Idx(np) |-> LET k == Draw(1..10) IN IF k < 5 THEN <<"flag", "inpaint", "zero", "nan">>[k] ELSE "ok"])},
        cre \in {TLCEval([c \in Idx(np) |-> Draw(-2..2)])}, sd \in {TLCEval([c \in Idx(np) |-> Draw(1..3)])}, cf \in {TLCEval([c \in Idx(np) |-> Rare(6)])},
        extra \in {TLCEval([c \in Idx(np) |-> Draw(1..3)])},
        auto \in {TLCEval([a \in Ants |-> TLCEval([q \in 1..2 |-> TLCEval([f \in 1..NF |-> Draw(1..4)])])])},
        var \in {TLCEval([c \in Idx(np) |-> Draw(1..5)])} :
     in' = [np |-> np, bl |-> bl, pols |-> pols, re |-> re, im |-> im, n |-> n, kind |-> kind, cre |-> cre, sd |-> sd, cf |-> cf, extra |-> extra, auto |-> auto, var |-> var]
At(m, c) == <<m, c[2], c[3], c[4]>>
N(c) == IF in.kind[c] = "ok" THEN in.n[c] ELSE 0
M(c) == Sum(1..NN, LAMBDA m : N(At(m, c)))
Sre(c) == Sum(1..NN, LAMBDA m : N(At(m, c)) * in.re[At(m, c)])
Sim(c) == Sum(1..NN, LAMBDA m : N(At(m, c)) * in.im[At(m, c)])
Sq(x) == x * x
Dev(c) == Sq(M(c) * in.re[c] - Sre(c)) + Sq(M(c) * in.im[c] - Sim(c))
Auto(c) == in.auto[in.bl[c[2]][1]][F1(in.pols[c[4]])][c[3]] * in.auto[in.bl[c[2]][2]][F2(in.pols[c[4]])][c[3]]
Defined(c) == N(c) > 0 /\ M(c) > N(c)
\* |Z|^2 in units of the time-bandwidth product: <<numerator, denominator>>, 0 / 0 if undefined
Zauto(c) == IF Defined(c) THEN <<2 * N(c) * Dev(c), M(c) * (M(c) - N(c)) * Auto(c)>> ELSE <<0, 0>>
Zvar(c) == IF Defined(c) THEN <<Dev(c), M(c) * (M(c) - N(c)) * in.var[c]>> ELSE <<0, 0>>
\* predicted variance: numerator, denominator; 1 / 0 is infinite
Raw(c) == IF in.kind[c] = "zero" THEN 0 ELSE in.n[c]
Pred(c, strict) == IF in.kind[c] \in {"flag", "zero"} \/ (strict /\ in.kind[c] = "inpaint") THEN <<1, 0>> ELSE <<Auto(c), Raw(c)>>
\* against given centres and totals (which include more than this night); only measured and flagged samples
Total(c) == Sum(1..NN, LAMBDA m : N(At(m, c))) + in.extra[At(1, c)]
Far(c) == Sq(in.re[c] - in.cre[At(1, c)]) + Sq(in.im[c])
Gauto(c) == IF in.kind[c] = "ok" THEN <<2 * in.n[c] * Total(c) * Far(c), (Total(c) - in.n[c]) * Auto(c)>> ELSE IF in.kind[c] = "flag" /\ Total(c) # in.n[c] THEN <<0, 1>> ELSE <<0, 0>>
Gstd(c) == IF in.kind[c] # "ok" THEN <<0, 0>> ELSE IF in.cf[At(1, c)] THEN <<0, 1>> ELSE <<2 * in.n[c] * Total(c) * Far(c), (Total(c) - in.n[c]) * Sq(in.sd[At(1, c)])>>
Arr(g(_)) == [m \in 1..NN |-> [b \in 1..NB |-> [f \in 1..NF |-> [p \in 1..in.np |-> g(<<m, b, f, p>>)]]]]
Z == /\ Mode = "z" /\ pc = "made" /\ pc' = "done" /\ UNCHANGED in
  /\ out' = <<[mode |-> "z", pols |-> in.pols, bls |-> in.bl, auto |-> in.auto, re |-> Arr(LAMBDA c : in.re[c]), im |-> Arr(LAMBDA c : in.im[c]), n |-> Arr(LAMBDA c : in.n[c]), kind |-> Arr(LAMBDA c : in.kind[c]),
       cre |-> Arr(LAMBDA c : in.cre[At(1, c)]), sd |-> Arr(LAMBDA c : in.sd[At(1, c)]), cf |-> Arr(LAMBDA c : in.cf[At(1, c)]), total |-> Arr(Total), var |-> Arr(LAMBDA c : in.var[c]),
       zauto |-> Arr(Zauto), zvar |-> Arr(Zvar), pred |-> Arr(LAMBDA c : Pred(c, FALSE)), preds |-> Arr(LAMBDA c : Pred(c, TRUE)), gauto |-> Arr(Gauto), gstd |-> Arr(Gstd)]>>
\* the weighted deviations from the mean of the usable nights cancel
Cancels == (Mode = "z" /\ pc = "made") => \A c \in {At(1, x) : x \in Idx(in.np)} :
     /\ Sum(1..NN, LAMBDA m : N(At(m, c)) * (M(c) * in.re[At(m, c)] - Sre(c))) = 0
     /\ \A m \in 1..NN : LET z == Zauto(At(m, c)) IN z[1] >= 0 /\ z[2] >= 0
\* ---- selections ---------------------------------------------------------------------------------------------------
MakePick == /\ Mode = "pick" /\ pc = "start" /\ pc' = "made" /\ UNCHANGED out
  /\ \E np \in RE({1, 2, 2, 4}), bs \in {DrawSet(NB, Pairs)} :
     \E pols \in {Shuffle(DrawSet(np, {"ee", "nn", "en", "ne"}))}, bl \in {Shuffle(bs)} :
     \E nform \in RE({"none", "all", "one", "list"}), ns \in {DrawSet(Draw(1..NN), 1..NN)}, bform \in RE({"none", "tuple", "list", "sel"}), bsel \in {Shuffle(DrawSet(Draw(1..NB), 1..NB))},
        fform \in RE({"none", "tuple", "slice"}), lo \in RE(0..(NF - 1)), pform \in RE({"none", "str", "list"}), psel \in {Shuffle(DrawSet(Draw(1..np), 1..np))},
        keep \in {DrawSet(Draw(1..(NB * np)), (1..NB) \X (1..np))}, days \in {TLCEval([x \in (1..NB) \X (1..np) |-> TLCEval([f \in 1..NF |-> Draw(0..9)])])}, lost \in {DrawSet(Draw(0..2), (1..NB) \X (1..np))}, mind \in RE(0..7),
        bad \in {DrawSet(Draw(0..6), Idx(np))}, fl \in {DrawSet(Draw(0..6), Idx(np))}, axes \in {DrawSet(Draw(1..3), {"nights", "antpairs", "freqs", "pols", "bls"})} :
     \E hi \in RE((lo + 1)..NF) :
     in' = [np |-> np, bl |-> bl, pols |-> pols, nform |-> nform, ns |-> ns, bform |-> bform, bsel |-> bsel, fform |-> fform, lo |-> lo, hi |-> hi, pform |-> pform, psel |-> psel, keep |-> keep, days |-> days, lost |-> lost,
            mind |-> mind, bad |-> bad, fl |-> fl, axes |-> axes]
Sorted(S) == SetToSortSeq(S, <)
Whole(n) == [k \in 1..n |-> k]
NightsOut == IF in.nform \in {"none", "all"} THEN Whole(NN) ELSE IF in.nform = "one" THEN <<Min(in.ns)>> ELSE Sorted(in.ns)
BlsOut == IF in.bform = "none" THEN Whole(NB) ELSE IF in.bform = "tuple" THEN <<in.bsel[1]>> ELSE IF in.bform = "list" THEN in.bsel ELSE Sorted({x[1] : x \in in.keep})
PolsOut == IF in.bform = "sel" THEN Sorted({x[2] : x \in in.keep}) ELSE IF in.pform = "none" THEN Whole(in.np) ELSE IF in.pform = "str" THEN <<in.psel[1]>> ELSE in.psel
ChansOut == IF in.fform = "none" THEN Whole(NF) ELSE [k \in 1..(in.hi - in.lo) |-> in.lo + k]
Masked(c) == c \in in.bad \/ c \in in.fl \/ (in.bform = "sel" /\ <<c[2], c[4]>> \notin in.keep)
Med2(s) == LET t == SortSeq(s, <)
               k == Len(s) IN IF k % 2 = 1 THEN 2 * t[(k + 1) \div 2] ELSE t[k \div 2] + t[(k \div 2) + 1]
EnoughDays(x) == in.mind = 0 \/ (x \notin in.lost /\ Med2(in.days[x]) >= 2 * in.mind)
AxisNo(a) == CASE a = "nights" -> {0} [] a = "antpairs" -> {1} [] a = "freqs" -> {2} [] a = "pols" -> {3} [] OTHER -> {1, 3}
Pick == /\ Mode = "pick" /\ pc = "made" /\ pc' = "done" /\ UNCHANGED in
  /\ out' = LET nn == NightsOut
                bb == BlsOut
                ff == ChansOut
                pp == PolsOut IN
     <<[mode |-> "pick", pols |-> in.pols, bls |-> in.bl, nform |-> in.nform, ns |-> Sorted(in.ns), bform |-> in.bform, bsel |-> in.bsel, fform |-> in.fform, lo |-> in.lo, hi |-> in.hi, pform |-> in.pform, psel |-> in.psel,
        keep |-> in.keep, bad |-> in.bad, fl |-> in.fl, axes |-> SetToSeq(in.axes), mind |-> in.mind,
        days |-> {<<x[1], x[2], in.days[x]>> : x \in (DOMAIN in.days) \ in.lost},
        out |-> <<nn, bb, ff, pp>>, mask |-> [a \in DOMAIN nn |-> [b \in DOMAIN bb |-> [f \in DOMAIN ff |-> [p \in DOMAIN pp |-> Masked(<<nn[a], bb[b], ff[f], pp[p]>>)]]]],
        chosen |-> {x \in in.keep : EnoughDays(x)}, anydays |-> {x \in (1..NB) \X (1..in.np) : EnoughDays(x)}, axno |-> Sorted(UNION {AxisNo(a) : a \in in.axes})]>>
\* ---- clipping -----------------------------------------------------------------------------------------------------
Shape == <<NN, NB, NF>>
Cells == (1..NN) \X (1..NB) \X (1..NF)
MakeClip == /\ Mode = "clip" /\ pc = "start" /\ pc' = "made" /\ UNCHANGED out
  /\ \E ax \in RE(1..3), tx \in RE(1..3), how \in RE({"direct", "mean", "median"}), th \in RE({10, 15, 20, 23, 35, 50}), minN \in RE({0, 2, 4, 6}), form \in RE({"mask", "nan", "plain"}) :
     \E sform \in {IF how = "direct" THEN Draw({"none", "none", "full", "reduced"}) ELSE Draw({"full", "reduced"})},
        val \in {TLCEval([c \in Cells |-> IF Rare(6) THEN Draw(-40..40) ELSE Draw(-4..4)])}, masked \in {IF form = "plain" THEN {} ELSE DrawSet(Draw(0..(Cardinality(Cells) \div 3)), Cells)},
        s1 \in {TLCEval([c \in Cells |-> Draw({1, 2, 4})])}, cutat \in RE(0..Shape[tx]), bands \in RE({"none", "two", "part"}),
        fl \in {LET k == Draw(1..3) IN DrawSet((Cardinality(Cells) * k) \div 4, Cells)}, fth \in RE(0..10) :
     in' = [ax |-> ax, tx |-> tx, how |-> how, th |-> th, minN |-> minN, form |-> form, sform |-> sform, val |-> val, masked |-> masked, s1 |-> s1, cut |-> cutat, bands |-> bands, fl |-> fl, fth |-> fth]
Put(c, a, v) == [c EXCEPT ![a] = v]
Scale(c) == IF in.sform = "reduced" THEN in.s1[Put(c, in.ax, 1)] ELSE in.s1[c]
Line(c) == {x \in Cells : Put(x, in.ax, 1) = Put(c, in.ax, 1) /\ x \notin in.masked}
Bag(S, f(_)) == [k \in 1..Cardinality(S) |-> f(SetToSeq(S)[k])]
M2(c) == Med2(Bag(Line(c), LAMBDA x : in.val[x]))
Dev2(c) == Abs(2 * in.val[c] - M2(c))
Mad4(c) == Med2(Bag(Line(c), Dev2))
Z8(c) == Dev2(c) * (4 \div Scale(c))
Bands == IF in.bands = "none" THEN <<<<0, Shape[in.tx]>>>> ELSE IF in.bands = "two" THEN <<<<0, in.cut>>, <<in.cut, Shape[in.tx]>>>> ELSE <<<<0, in.cut>>>>
InBand(c, b) == c[in.tx] > b[1] /\ c[in.tx] <= b[2]
Band(c) == LET H == {k \in DOMAIN Bands : InBand(c, Bands[k])} IN IF H = {} THEN 0 ELSE CHOOSE k \in H : TRUE
Mates(c) == {x \in Cells : Put(x, in.tx, 1) = Put(c, in.tx, 1) /\ InBand(x, Bands[Band(c)]) /\ x \notin in.masked}
Short == Shape[in.ax] < in.minN
\* "yes", "no" or "any": masked samples, no scatter, too close to call
Verdict(c) ==
  IF Short \/ Band(c) = 0 THEN "no"
  ELSE IF c \in in.masked /\ (in.how = "direct" \/ Mates(c) = {}) THEN "any"
  ELSE IF in.how = "direct" /\ in.sform = "none" THEN
       (IF Mad4(c) = 0 THEN (IF Dev2(c) = 0 THEN "no" ELSE "any")
        ELSE LET l == 200000 * Dev2(c)
                 r == in.th * 14826 * Mad4(c) IN IF Abs(l - r) < (r \div 500) THEN "any" ELSE IF l > r THEN "yes" ELSE "no")
  ELSE IF in.how = "direct" THEN (IF Z8(c) * 10 > in.th * 8 THEN "yes" ELSE "no")
  ELSE IF in.how = "mean" THEN (IF Sum(Mates(c), Z8) * 10 > in.th * 8 * Cardinality(Mates(c)) THEN "yes" ELSE "no")
  ELSE (IF Med2(Bag(Mates(c), Z8)) * 10 > in.th * 16 THEN "yes" ELSE "no")
Often(c) == 10 * Cardinality({m \in 1..NN : <<m, c[2], c[3]>> \in in.fl}) > in.fth * NN
Cube(g(_)) == [a \in 1..NN |-> [b \in 1..NB |-> [f \in 1..NF |-> g(<<a, b, f>>)]]]
Clip == /\ Mode = "clip" /\ pc = "made" /\ pc' = "done" /\ UNCHANGED in
  /\ out' = <<[mode |-> "clip", ax |-> in.ax, tx |-> in.tx, how |-> in.how, th |-> in.th, minN |-> in.minN, form |-> in.form, sform |-> in.sform, bands |-> in.bands, blist |-> Bands, fth |-> in.fth,
        val |-> Cube(LAMBDA c : in.val[c]), masked |-> Cube(LAMBDA c : c \in in.masked), scale |-> Cube(Scale), want |-> Cube(Verdict), fl |-> Cube(LAMBDA c : c \in in.fl), ffl |-> Cube(LAMBDA c : c \in in.fl \/ Often(c))]>>
\* ------------------------------------------------------------------------------------------------------------------
Init == pc = "start" /\ in = <<>> /\ out = <<>>
Emit == /\ pc = "done" /\ pc' = "end" /\ UNCHANGED <<in, out>>
        /\ (out # <<>> => CSVWrite("%1$s", <<ToJson(out[1])>>, IOEnv.OUT))
Next == MakeZ \/ Z \/ MakePick \/ Pick \/ MakeClip \/ Clip \/ Emit
=============================================================================
