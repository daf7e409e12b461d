------------------------------- MODULE EdgeTrim -------------------------------
(* C22.  What happens to weights before, and to results after, a Fourier filter (hera_cal.vis_clean).
   An axis is a sequence of increasing integers; it falls into bands at every step larger than the smallest one.
   A waterfall is a set W of <<integration, channel>> pixels with nonzero weight.  Trimming keeps, per band, what
   lies between the first and the last slot that is not zero throughout.  Rows (integrations when filtering along
   frequency, channels when filtering along time) are dropped when they have a zero near a band edge, too long a run
   of zeros, or too few nonzero weights.                                                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS MaxT, MaxF
VARIABLES pc, in, out
vars == <<pc, in, out>>
RE(S) == {RandomElement(S)}
\* ---- bands ---------------------------------------------------------------------------------------------------------
Bands(x) ==   \* sequence of <<first, last>> slots
   IF Len(x) = 0 THEN <<>> ELSE
   LET step == IF Len(x) = 1 THEN 1 ELSE Min({x[i + 1] - x[i] : i \in 1..(Len(x) - 1)})
       ends == SetToSortSeq({i \in 1..(Len(x) - 1) : x[i + 1] - x[i] > step} \cup {Len(x)}, LAMBDA a, b : a < b)
   IN [k \in 1..Len(ends) |-> <<IF k = 1 THEN 1 ELSE ends[k - 1] + 1, ends[k]>>]
\* slots of one axis that survive trimming, given the live ones
KeepSlots(x, live) == LET B == Bands(x) IN
   {i \in 1..Len(x) : \E k \in DOMAIN B : B[k][1] <= i /\ i <= B[k][2]
       /\ (\E j \in live : B[k][1] <= j /\ j <= i) /\ (\E j \in live : i <= j /\ j <= B[k][2])}
EdgeWidths(x, live) == LET B == Bands(x) IN
   [k \in DOMAIN B |-> LET L == {j \in live : B[k][1] <= j /\ j <= B[k][2]} IN
      IF L = {} THEN <<0, B[k][2] - B[k][1] + 1>> ELSE <<Min(L) - B[k][1], B[k][2] - Max(L)>>]
Swap(W) == {<<p[2], p[1]>> : p \in W}
Cols(W) == {p[2] : p \in W}
Rows(W) == {p[1] : p \in W}
Sub(x, K) == LET s == SetToSortSeq(K, LAMBDA a, b : a < b) IN [i \in 1..Len(s) |-> x[s[i]]]
\* trimming on the given axes: what is kept of each
TrimT(ax, xt, xf, W) == IF ax \in {"time", "both"} THEN KeepSlots(xt, Rows(W)) ELSE 1..Len(xt)
TrimF(ax, xt, xf, W) == IF ax \in {"freq", "both"} THEN KeepSlots(xf, Cols(W)) ELSE 1..Len(xf)
\* ---- dropping rows; T, F are the slots present (kept) on each axis, in order ---------------------------------------------
Runs(S, live) ==   \* longest run of consecutive elements of the ordered set S that are not live
   FoldLeft(LAMBDA acc, i : LET c == IF i \in live THEN 0 ELSE acc[1] + 1 IN <<c, IF c > acc[2] THEN c ELSE acc[2]>>, <<0, 0>>,
            SetToSortSeq(S, LAMBDA a, b : a < b))[2]
DropRuns(T, F, W, n) == {p \in W : Runs(F, {q \in F : <<p[1], q>> \in W}) < n}
NearEdge(x, F, d) ==   \* slots within d of the edge of their band, bands taken after trimming
   LET s == SetToSortSeq(F, LAMBDA a, b : a < b)  B == Bands(Sub(x, F)) IN
   {s[i] : i \in {i \in DOMAIN s : \E k \in DOMAIN B : B[k][1] <= i /\ i <= B[k][2] /\ (i - B[k][1] <= d \/ B[k][2] - i <= d)}}
DropEdge(x, T, F, W, d) == LET E == TLCEval(NearEdge(x, F, d)) IN {p \in W : \A q \in E : <<p[1], q>> \in W}
\* short bands: the distance reaches into the neighbouring band, which is not specified
ShortBand(x, F, d) == LET B == Bands(Sub(x, F)) IN \E k \in DOMAIN B : B[k][2] - B[k][1] < d
OnAxes(ax, W, rowop(_), colop(_)) ==   \* rows first, then channels on what is left
   CASE ax = "freq" -> rowop(W) [] ax = "time" -> colop(W) [] OTHER -> colop(TLCEval(rowop(W)))
Contig(ax, T, F, W, nt, nf) == OnAxes(ax, W, LAMBDA V : DropRuns(T, F, V, nf), LAMBDA V : Swap(DropRuns(F, T, Swap(V), nt)))
Edge(ax, xt, xf, T, F, W, dt, df) ==
   OnAxes(ax, W, LAMBDA V : DropEdge(xf, T, F, V, df), LAMBDA V : Swap(DropEdge(xt, F, T, Swap(V), dt)))
\* ---- the filter: which pixels come out flagged, and which take part -----------------------------------------------------
Full(i) == (1..i.nt) \X (1..i.nf)
TooFew(n, len, k) == n = 0 \/ 37 * n < k * len
Even(x) == 2 * Cardinality({j \in 1..(Len(x) - 1) : x[j + 1] = x[j] + 1}) > Len(x) - 1    \* padding continues the median step
FilterSpw(i, lo, hi) ==    \* channels lo..hi
   LET W == {p \in i.w : lo <= p[2] /\ p[2] <= hi}
       xf == SubSeq(i.xf, lo, hi)
       V == {<<p[1], p[2] - lo + 1>> : p \in W}
       T == IF i.trim THEN TrimT(i.ax, i.xt, xf, V) ELSE 1..i.nt
       F == IF i.trim THEN TrimF(i.ax, i.xt, xf, V) ELSE 1..Len(xf)
       V1 == IF i.contig THEN TLCEval(Contig(i.ax, T, F, V, i.mt, i.mf)) ELSE V
       edge == i.edge /\ ((i.ax # "freq" /\ i.dt > 0) \/ (i.ax # "time" /\ i.df > 0))     \* a distance of zero on every axis asks for nothing
       V2 == IF edge THEN TLCEval(Edge(i.ax, i.xt, xf, T, F, V1, i.dt, i.df)) ELSE V1
       pad(z) == IF i.trim THEN 0 ELSE 2 * z
       deadT == {t \in T : TooFew(Cardinality({f \in F : <<t, f>> \in V2}), Cardinality(F) + pad(i.zf), i.skip)}
       deadF == {f \in F : TooFew(Cardinality({t \in T : <<t, f>> \in V2}), Cardinality(T) + pad(i.zt), i.skip)}
       \* two dimensions: integrations too poor to filter along frequency are filled in along time, unless few are left
       alive == CASE i.ax = "time" -> T \X (F \ deadF)
                  [] i.ax = "freq" -> (T \ deadT) \X F
                  [] OTHER -> IF TooFew(Cardinality(T \ deadT), Cardinality(T) + pad(i.zt), i.skip) THEN {} ELSE T \X F
       fine(x, K) == Cardinality(K) = 0 \/ (Cardinality(K) >= 4 /\ LET s == Sub(x, K) IN \E j \in 1..(Len(s) - 1) : s[j + 1] = s[j] + 1)
   IN [skip |-> {<<p[1], p[2] + lo - 1>> : p \in ((1..i.nt) \X (1..Len(xf))) \ alive},
       use |-> {<<p[1], p[2] + lo - 1>> : p \in V2 \cap alive},
       short |-> edge /\ ((i.ax \in {"freq", "both"} /\ ShortBand(xf, F, i.df)) \/ (i.ax \in {"time", "both"} /\ ShortBand(i.xt, T, i.dt))),
       few |-> (i.ax # "time" /\ (~fine(xf, F) \/ (pad(i.zf) > 0 /\ ~Even(xf)))) \/ (i.ax # "freq" /\ (~fine(i.xt, T) \/ (pad(i.zt) > 0 /\ ~Even(i.xt))))]
\* ---- inputs --------------------------------------------------------------------------------------------------------------
RECURSIVE Walk(_, _, _)
Walk(n, x, gap) == IF n = 0 THEN x ELSE
   Walk(n - 1, Append(x, x[Len(x)] + (IF RandomElement(1..gap) = 1 THEN RandomElement(2..6) ELSE 1)), gap)
Axis(n, gap) == TLCEval(Walk(n - 1, <<0>>, gap))
Slots(n, k) == TLCEval({i \in 1..n : TLCEval(RandomElement(1..10) <= k)})
\* zero edges, whole slots and isolated pixels
Wts(nt, nf, kt, kf, kp) ==
   LET zt == Slots(nt, kt)  zf == Slots(nf, kf)  lt == RandomElement(0..((nt - 1) \div 3))  lf == RandomElement(0..((nf - 1) \div 4))  ht == RandomElement(0..((nt - 1) \div 3))  hf == RandomElement(0..((nf - 1) \div 3))
   IN TLCEval({p \in ((lt + 1)..(nt - ht)) \X ((lf + 1)..(nf - hf)) : p[1] \notin zt /\ p[2] \notin zf /\ TLCEval(RandomElement(1..10) > kp)})
Make ==
   /\ pc = "start" /\ pc' = "run" /\ UNCHANGED out
   /\ \E nt \in RE(IF RandomElement(1..3) = 1 THEN 2..MaxT ELSE 5..MaxT), nf \in RE(IF RandomElement(1..3) = 1 THEN 2..MaxF ELSE 6..MaxF), gt \in RE({3, 6, 100}), gf \in RE({3, 6, 100}), kt \in RE(0..8), kf \in RE(0..8), kp \in RE(0..7),
         cut \in RE(0..1) : \E c \in RE(1..(nf - 1)), w \in {Wts(nt, nf, (kt % 5) % 4, (kf % 5) % 4, (kp % 6) % 4)}, ax \in RE({"freq", "time", "both"}), z \in RE({IF RandomElement(BOOLEAN) THEN 0 ELSE RandomElement(1..3)}) :
      in' = [nt |-> nt, nf |-> nf, xt |-> Axis(nt, gt), xf |-> Axis(nf, gf), w |-> w, ax |-> ax,
             trim |-> RandomElement(BOOLEAN), contig |-> z = 0 /\ RandomElement(BOOLEAN), edge |-> z = 0 /\ RandomElement(BOOLEAN),
             mt |-> RandomElement(1..6), mf |-> RandomElement(1..6), dt |-> RandomElement(0..3), df |-> RandomElement(0..3),
             zt |-> z, zf |-> IF ax = "both" THEN RandomElement(0..2) * Min({z, 1}) ELSE z, skip |-> RandomElement({0, 0, 5, 12, 20}),
             keepfl |-> RandomElement(BOOLEAN), resfl |-> RandomElement(BOOLEAN), cut |-> IF cut = 0 THEN 0 ELSE c]
Run ==
   /\ pc = "run" /\ pc' = "emit" /\ UNCHANGED in
   /\ out' = TLCEval(
      LET T == TrimT(in.ax, in.xt, in.xf, in.w)  F == TrimF(in.ax, in.xt, in.xf, in.w)
          spw == IF in.cut = 0 THEN <<<<1, in.nf>>>> ELSE <<<<1, in.cut>>, <<in.cut + 1, in.nf>>>>
          fs == TLCEval([k \in DOMAIN spw |-> FilterSpw(in, spw[k][1], spw[k][2])])
      IN [keepT |-> SetToSortSeq(T, LAMBDA a, b : a < b), keepF |-> SetToSortSeq(F, LAMBDA a, b : a < b),
          edgesT |-> EdgeWidths(in.xt, Rows(in.w)), edgesF |-> EdgeWidths(in.xf, Cols(in.w)),
          bandsT |-> Bands(in.xt), bandsF |-> Bands(in.xf),
          contig |-> Contig(in.ax, 1..in.nt, 1..in.nf, in.w, in.mt, in.mf),
          edge |-> Edge(in.ax, in.xt, in.xf, 1..in.nt, 1..in.nf, in.w, in.dt, in.df),
          shortT |-> ShortBand(in.xt, 1..in.nt, in.dt), shortF |-> ShortBand(in.xf, 1..in.nf, in.df),
          spw |-> spw, skip |-> UNION {fs[k].skip : k \in DOMAIN fs}, use |-> UNION {fs[k].use : k \in DOMAIN fs},
          fshort |-> \E k \in DOMAIN fs : fs[k].short, few |-> \E k \in DOMAIN fs : fs[k].few])
Emit == /\ pc = "emit" /\ pc' = "end" /\ UNCHANGED <<in, out>>
        /\ CSVWrite("%1$s", <<ToJson([in |-> in, out |-> out])>>, IOEnv.OUT)
Init == pc = "start" /\ in = <<>> /\ out = <<>>
Next == Make \/ Run \/ Emit
\* ---- what a user relies on ----------------------------------------------------------------------------------------------
Done == pc \in {"emit", "end"}
SetOf(s) == {s[i] : i \in DOMAIN s}
TrimKeepsWeight == Done => in.w \subseteq SetOf(out.keepT) \X SetOf(out.keepF)
TrimIsExact == Done =>    \* a trimmed slot is zero throughout, up to the edge of its band
   /\ \A i \in (1..in.nf) \ SetOf(out.keepF) : i \notin Cols(in.w)
   /\ \A i \in (1..in.nt) \ SetOf(out.keepT) : i \notin Rows(in.w)
   /\ LET tot(e) == FoldLeft(LAMBDA a, p : a + p[1] + p[2], 0, e) IN
      /\ in.ax \in {"freq", "both"} => tot(out.edgesF) = in.nf - Len(out.keepF)
      /\ in.ax \in {"time", "both"} => tot(out.edgesT) = in.nt - Len(out.keepT)
BandsPartition == Done => \A b \in {out.bandsT, out.bandsF} : /\ b[1][1] = 1 /\ \A k \in 1..(Len(b) - 1) : b[k + 1][1] = b[k][2] + 1
DropsWhole == Done =>     \* rows are dropped whole or not at all, never revived
   /\ out.contig \subseteq in.w /\ out.edge \subseteq in.w
   /\ in.ax = "freq" => \A r \in 1..in.nt : LET R(W) == {p \in W : p[1] = r} IN R(out.contig) \in {{}, R(in.w)} /\ R(out.edge) \in {{}, R(in.w)}
   /\ in.ax = "time" => \A c \in 1..in.nf : LET C(W) == {p \in W : p[2] = c} IN C(out.contig) \in {{}, C(in.w)} /\ C(out.edge) \in {{}, C(in.w)}
UsedNotSkipped == Done => out.use \cap out.skip = {} /\ out.use \subseteq in.w
=============================================================================
