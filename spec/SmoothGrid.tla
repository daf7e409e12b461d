------------------------------ MODULE SmoothGrid ------------------------------
(* C20.  A day of calibration files gathered onto one time grid (smooth_cal.CalibrationSmoother).
   Times are integers in tenths of an integration; a file is a record of its integrations' times, its antennas, and
   per antenna the flagged and the non-finite <<row, channel>> pixels.  External flag files cover the same
   integrations, perhaps split differently, with flags per feed polarization, per antenna or per baseline.
   Load gathers everything (or refuses), Black builds the blacklists, Ref picks and applies a reference antenna,
   and the outcome says what every grid pixel must hold, what may influence a smoothed gain, and what goes back
   into every file.                                                                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt, FlagThresh
CONSTANTS NF, MaxFiles, Nums, Pols, Refs
VARIABLES pc, in, grid, out
vars == <<pc, in, grid, out>>
RE(S) == {RandomElement(S)}
DAY == 80247
\* ---- inputs -----------------------------------------------------------------------------------------------------
Pix(n, k) == RandomSubset(RandomElement(0..k), (1..n) \X (1..NF))
\* scattered pixels, whole rows, a whole channel, everything
RFl(n) == LET c == RandomElement(1..9) IN TLCEval(
   CASE c < 4 -> {}
     [] c < 7 -> Pix(n, 3)
     [] c = 7 -> RandomSubset(1, 1..n) \X (1..NF)
     [] c = 8 -> (1..n) \X RandomSubset(1, 1..NF)
     [] OTHER -> Grid(n, NF))
RECURSIVE Times(_, _, _)
Times(start, lens, gaps) == IF lens = <<>> THEN <<>>
   ELSE <<[r \in 1..Head(lens) |-> start + 10 * (r - 1)]>> \o Times(start + 10 * (Head(lens) - 1) + Head(gaps), Tail(lens), Tail(gaps))
Gap == IF RandomElement(1..7) = 1 THEN RandomElement({0, 3, 7}) ELSE RandomElement({10, 10, 20, 23, 27, 30, 34})
MkFile(ts, as, nonf) == LET n == Len(ts) IN
   [t |-> ts, a |-> as, fl |-> TLCEval([a \in as |-> RFl(n)]), nf |-> TLCEval([a \in as |-> IF nonf THEN Pix(n, 1) ELSE {}])]
Thr == {<<1, 1>>, <<1, 1>>, <<35, 100>>, <<1, 2>>, <<17, 100>>, <<71, 100>>}
Make ==
   /\ pc = "start" /\ pc' = "load"
   /\ \E nfile \in RE(1..MaxFiles), nonf \in RE({TRUE, FALSE, FALSE}), P \in RE(SUBSET Pols \ {{}}), N0 \in {RandomSubset(RandomElement(2..Cardinality(Nums)), Nums)}, same \in RE({TRUE, TRUE, FALSE}) :
      \E lens \in {TLCEval([f \in 1..nfile |-> RandomElement(IF nfile = 1 THEN 3..6 ELSE 2..4)])}, gaps \in {TLCEval([f \in 1..nfile |-> Gap])} :
      \E ts \in {Times(0, lens, gaps)}, sub \in {TLCEval([f \in 1..nfile |-> (IF same THEN N0 ELSE RandomSubset(RandomElement(1..Cardinality(N0)), N0)) \X P])} :
      \E fs \in {TLCEval([f \in 1..nfile |-> MkFile(ts[f], sub[f], nonf)])}, mode \in RE({"none", "none", "pol", "ant", "bl"}), split \in RE(BOOLEAN) :
      LET B == N0 \X P
          last == ts[nfile][Len(ts[nfile])]
          all == FoldLeft(LAMBDA x, y : x \o y, <<>>, ts)
          fts == IF split THEN ts ELSE <<all>>
          \* an external flag file: what is flagged, keyed by feed polarization, antenna or baseline
          keys == CASE mode = "pol" -> {<<p>> : p \in P}
                    [] mode = "ant" -> B
                    [] OTHER -> {k \in Nums \X Nums \X P : k[1] < k[2]}
      IN \E cut \in RE(0..11), badf \in RE(0..15), ref \in RE(Refs), nb \in RE(0..2), nl \in RE(0..2), nff \in RE(0..2), nc \in RE(0..1), wrap \in RE(-30..(last + 30)) :
         in' = [files |-> fs, nf |-> NF, mode |-> mode,
                fthr |-> RandomElement({<<0, 1>>, <<1, 2>>, <<1, 1>>}),
                ext |-> IF mode = "none" THEN <<>>
                        ELSE TLCEval([i \in 1..Len(fts) |-> LET tt == IF cut = 0 /\ i = Len(fts) /\ Len(fts[i]) > 1 THEN Front(fts[i]) ELSE fts[i]
                              IN [t |-> tt, fl |-> TLCEval([k \in keys |-> IF RandomElement(1..2) = 1 THEN {} ELSE RFl(Len(tt))])]]),
                badf |-> IF nfile > 1 /\ badf <= nfile THEN badf ELSE 0,                                 \* this file has other frequencies
                thr |-> IF RandomElement(1..2) = 1 THEN <<<<1, 1>>, <<1, 1>>, <<1, 1>>>> ELSE <<RandomElement(Thr), RandomElement(Thr), RandomElement(Thr)>>,
                ign |-> RandomElement(1..5) = 1,
                tb |-> TLCEval([i \in 1..nb |-> LET x == RandomElement(-20..(last + 20)) IN <<x, x + RandomElement({0, 10, 3, 14, 40})>>]),
                lb |-> TLCEval([i \in 1..nl |-> <<RandomElement(-40..(last + 40)), RandomElement(-40..(last + 40))>>]),
                wrap |-> wrap,                                            \* sidereal time wraps just after this time
                fb |-> TLCEval([i \in 1..nff |-> LET x == RandomElement(0..(2 * NF + 1)) IN <<x, x + RandomElement(0..4)>>]),      \* half channels
                cb |-> TLCEval([i \in 1..nc |-> LET x == RandomElement(1..NF) IN <<x, x + RandomElement(0..2)>>]),
                wb |-> TLCEval([a \in B |-> IF RandomElement(1..3) = 1 THEN RandomSubset(2, (1..3) \X (1..NF)) ELSE {}]),
                ref |-> ref, prop |-> RandomElement(BOOLEAN)]
   /\ UNCHANGED <<grid, out>>
\* ---- meaning ----------------------------------------------------------------------------------------------------
F == in.files
A == UNION {F[f].a : f \in DOMAIN F}
AllTimes == UNION {{F[f].t[r] : r \in DOMAIN F[f].t} : f \in DOMAIN F}
\* the grid cell of an integration: the nearest multiple of the integration time after the first one
Cell(t) == (t + 5) \div 10 + 1
NT == Cell(Max(AllTimes))
FR == {<<f, r>> : f \in DOMAIN F, r \in 1..10}
Ints == {x \in FR : x[2] \in DOMAIN F[x[1]].t}
Dup == \E x, y \in Ints : x # y /\ Cell(F[x[1]].t[x[2]]) = Cell(F[y[1]].t[y[2]])
CalCells == {Cell(F[x[1]].t[x[2]]) : x \in Ints}
ExtCells == UNION {{Cell(in.ext[i].t[r]) : r \in DOMAIN in.ext[i].t} : i \in DOMAIN in.ext}
At(i) == CHOOSE x \in Ints : Cell(F[x[1]].t[x[2]]) = i
\* ---- external flags of an antenna in one flag file
Ends(k) == {<<k[1], k[3]>>, <<k[2], k[3]>>}
ExtAnt(e, a) ==
   LET n == Len(e.t)  G == Grid(n, NF) IN
   CASE in.mode = "pol" -> e.fl[<<a[2]>>]
     [] in.mode = "ant" -> e.fl[a]
     [] OTHER -> LET dead(b) == \A k \in DOMAIN e.fl : b \in Ends(k) => e.fl[k] = G
                     L == {k \in DOMAIN e.fl : a \in Ends(k) /\ \A b \in Ends(k) : ~dead(b)}
                 IN IF dead(a) THEN G
                    ELSE {p \in G : LET m == Cardinality({k \in L : p \in e.fl[k]}) IN IF in.fthr = <<1, 1>> THEN L # {} /\ m = Cardinality(L) ELSE Exceeds(m, Cardinality(L), in.fthr)}
\* ---- gathered
Src(a, i, at) == IF at[i] # <<>> /\ a \in F[at[i][1]].a THEN at[i] ELSE <<>>
CalFl(a, src) == {p \in Grid(NT, NF) : LET s == src[p[1]] IN s = <<>> \/ (~in.ign /\ <<s[2], p[2]>> \in F[s[1]].fl[a])}
ExtFl(a) == UNION {LET e == in.ext[i] IN {<<Cell(e.t[p[1]]), p[2]>> : p \in ExtAnt(e, a)} : i \in DOMAIN in.ext}
NonFin(a, src) == {p \in Grid(NT, NF) : LET s == src[p[1]] IN s # <<>> /\ <<s[2], p[2]>> \in F[s[1]].nf[a]}
Load ==
   /\ pc = "load"
   /\ \E at \in {TLCEval([i \in 1..NT |-> IF i \in CalCells THEN At(i) ELSE <<>>])} :
      \E src \in {TLCEval([a \in A |-> TLCEval([i \in 1..NT |-> Src(a, i, at)])])} :
      \E raw \in {TLCEval([a \in A |-> CalFl(a, src[a]) \cup ExtFl(a)])}, non \in {TLCEval([a \in A |-> NonFin(a, src[a])])} :
      IF Dup \/ in.badf # 0 \/ (in.mode # "none" /\ ExtCells # CalCells) \/ \E a \in A : non[a] \ raw[a] # {}
      THEN grid' = [err |-> TRUE] /\ pc' = "emit"
      ELSE /\ grid' = [err |-> FALSE, nt |-> NT, raw |-> raw, fl |-> Thresh(raw, NT, NF, in.thr[1], in.thr[2], in.thr[3]), src |-> src, non |-> non]
           /\ pc' = "black"
   /\ UNCHANGED <<in, out>>
\* sidereal coordinate (bounds carry an extra half tenth, so they never coincide with an integration)
Lst(t2) == IF t2 <= 2 * in.wrap THEN t2 - 2 * in.wrap + 2 * DAY ELSE t2 - 2 * in.wrap
TimeIn(b, t) == b[1] <= t /\ t <= b[2]
LstIn(b, t) == LET lo == Lst(2 * b[1] + 1)  hi == Lst(2 * b[2] + 1)  l == Lst(2 * t)
               IN IF lo < hi THEN lo <= l /\ l <= hi ELSE l >= lo \/ l <= hi
TimeOf(i) == F[At(i)[1]].t[At(i)[2]]
BlackT == {i \in CalCells : (\E j \in DOMAIN in.tb : TimeIn(in.tb[j], TimeOf(i))) \/ (\E j \in DOMAIN in.lb : LstIn(in.lb[j], TimeOf(i)))}
BlackF == {c \in 1..NF : (\E j \in DOMAIN in.fb : in.fb[j][1] <= 2 * c /\ 2 * c <= in.fb[j][2]) \/ (\E j \in DOMAIN in.cb : in.cb[j][1] <= c /\ c <= in.cb[j][2])}
Black == /\ pc = "black" /\ pc' = "ref"
         /\ grid' = [grid EXCEPT !.err = FALSE] @@ [bt |-> BlackT, bf |-> BlackF]
         /\ UNCHANGED <<in, out>>
\* candidates for the reference antenna: fewest flags among S; picking r either propagates its flags or is refused
Fewest(S) == {a \in S : \A b \in S : Cardinality(grid.fl[a]) <= Cardinality(grid.fl[b])}
Choice(S) == {[ref |-> r,
               ok |-> in.prop \/ \A a \in S : grid.fl[r] \subseteq grid.fl[a],
               fl |-> {[a |-> a, fl |-> grid.fl[a] \cup grid.fl[r]] : a \in S}] : r \in Fewest(S)}
Uses(a) == {p \in Grid(grid.nt, NF) : p \notin grid.fl[a] /\ p[1] \notin grid.bt /\ p[2] \notin grid.bf /\ p \notin in.wb[a]}
Ref ==
   /\ pc = "ref" /\ pc' = "emit"
   /\ out' = [choices |-> CASE in.ref = "none" -> {}
                          [] in.ref = "one" -> {[pol |-> "", c |-> Choice(A)]}
                          [] OTHER -> {[pol |-> p, c |-> Choice({a \in A : a[2] = p})] : p \in {a[2] : a \in A}},
              uses |-> [a \in A |-> Uses(a)]]
   /\ UNCHANGED <<in, grid>>
J(g) == {[a |-> a, f |-> g[a]] : a \in DOMAIN g}
JFiles == [f \in DOMAIN F |-> [t |-> F[f].t, fl |-> J(F[f].fl), nf |-> J(F[f].nf)]]
Emit ==
   /\ pc = "emit" /\ pc' = "end" /\ UNCHANGED <<in, grid, out>>
   /\ CSVWrite("%1$s", <<ToJson([in |-> [in EXCEPT !.files = JFiles, !.wb = J(in.wb), !.ext = [i \in DOMAIN in.ext |-> [t |-> in.ext[i].t, fl |-> J(in.ext[i].fl)]]],
                                 grid |-> IF grid.err THEN [err |-> TRUE]
                                          ELSE [err |-> FALSE, nt |-> grid.nt, fl |-> J(grid.fl), src |-> J(grid.src), non |-> J(grid.non), bt |-> grid.bt, bf |-> grid.bf, cells |-> CalCells],
                                 out |-> IF grid.err THEN [err |-> TRUE] ELSE [choices |-> out.choices, uses |-> J(out.uses)]])>>, IOEnv.OUT)
Init == pc = "start" /\ in = <<>> /\ grid = <<>> /\ out = <<>>
Next == Make \/ Load \/ Black \/ Ref \/ Emit
\* ---- what a user relies on ----------------------------------------------------------------------------------------
Loaded == pc \in {"black", "ref", "emit", "end"} /\ ~grid.err
\* every integration is in exactly one cell and every filled cell holds exactly one integration of that antenna
NoMixing == Loaded => \A a \in A : \A x \in Ints : a \in F[x[1]].a <=> \E i \in 1..grid.nt : grid.src[a][i] = x
NothingUnflagged == Loaded => \A a \in A : grid.raw[a] \subseteq grid.fl[a] /\ \A i \in 1..grid.nt : grid.src[a][i] = <<>> => \A c \in 1..NF : <<i, c>> \in grid.fl[a]
FiniteUnlessFlagged == Loaded => \A a \in A : grid.non[a] \subseteq grid.fl[a]
\* smoothing only uses pixels that hold unflagged data
UsesAreData == (pc \in {"emit", "end"} /\ ~grid.err) => \A a \in A : \A p \in out.uses[a] : grid.src[a][p[1]] # <<>> /\ p \notin grid.raw[a]
SomeCandidate == (pc \in {"emit", "end"} /\ ~grid.err) => \A c \in out.choices : c.c # {}
=============================================================================
