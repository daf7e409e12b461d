-------------------------------- MODULE ChiSq --------------------------------
(* C16.  chi^2 is accumulated over baselines: every call adds, for each of its baselines that also has a model and
   weights, w |d - m g_i conj(g_j)|^2 to the total (or to its polarization's total) and to both antennas, and counts one
   observation where the weight is positive.  All quantities are Gaussian integers, so the sums are exact.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Ants, NT, NF
VARIABLES pc, in, done, acc, hist
vars == <<pc, in, done, acc, hist>>
RE(S) == {RandomElement(S)}
Pix == (1..NT) \X (1..NF)
Sw(q) == <<q[2], q[1]>>
RevK(k) == <<k[2], k[1], Sw(k[3])>>
OnePer(S) == {k \in S : ~(RevK(k) \in S /\ k[1] < k[2])}
RECURSIVE ShufS(_)
ShufS(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o ShufS(S \ {x})
CutUp(s) == LET n == Len(s)  cuts == RandomSubset(RandomElement(0..(n - 1)), 1..(n - 1))
                e == <<0>> \o SetToSortSeq(cuts, <) \o <<n>>
            IN [i \in 1..(Len(e) - 1) |-> [k \in 1..(e[i + 1] - e[i]) |-> s[e[i] + k]]]
RG == <<RandomElement(-2..3), RandomElement(-3..2)>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Cj(a) == <<a[1], -a[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
N2(a) == a[1] * a[1] + a[2] * a[2]
Make == /\ pc = "start" /\ pc' = "acc" /\ UNCHANGED <<done, hist>>
  /\ \E pols \in RE({{<<"n", "n">>}, {<<"n", "n">>, <<"e", "e">>}, {"n", "e"} \X {"n", "e"}}), split \in RE(BOOLEAN), hasg \in RE(BOOLEAN), hasf \in RE(BOOLEAN), useR \in RE(BOOLEAN), hasw \in RE({TRUE, TRUE, FALSE}) :
     LET U == {<<p[1], p[2], q>> : p \in {x \in Ants \X Ants : x[1] # x[2]}, q \in pols} IN
     \E K \in {OnePer(RandomSubset(RandomElement(1..9), U))} : \E s \in {TLCEval(ShufS(K))} :
     \E calls \in {TLCEval(CutUp(s))}, nomod \in {RandomSubset(RandomElement(0..1), K)}, now \in {RandomSubset(RandomElement(0..1), K)} :
     \* redundant groups: same polarization, the first member carries the model
     \E red \in {IF useR THEN TLCEval([k \in K |-> CHOOSE m \in K : m[3] = k[3] /\ (\A m2 \in K : m2[3] = k[3] => (m[1] * 10 + m[2]) % 4 <= (m2[1] * 10 + m2[2]) % 4 /\ ((m[1] * 10 + m[2]) % 4 = (m2[1] * 10 + m2[2]) % 4 => m[1] * 10 + m[2] <= m2[1] * 10 + m2[2]))]) ELSE [k \in K |-> k]} :
     \E d \in {TLCEval([k \in K |-> TLCEval([x \in Pix |-> [d |-> RG, m |-> RG, w |-> RandomElement(0..3)]])])},
        g \in {TLCEval([a \in Ants \X {"n", "e"} |-> TLCEval([x \in Pix |-> [g |-> RG, f |-> RandomElement(1..4) = 1]])])} :
     /\ in' = [split |-> split, hasg |-> hasg, hasf |-> hasf, hasw |-> hasw, useR |-> useR, calls |-> calls, nomod |-> IF useR THEN {} ELSE nomod, now |-> now, red |-> red, d |-> d, g |-> g]
     /\ acc' = [tot |-> [p \in {} |-> 0], ant |-> [a \in {} |-> 0]]
E1(k) == <<k[1], k[3][1]>>
E2(k) == <<k[2], k[3][2]>>
Counts(k) == k \notin in.nomod /\ ~(in.hasw /\ k \in in.now) /\ (~in.split \/ k[3][1] = k[3][2])
Wt(k, x) == IF in.hasf /\ (in.g[E1(k)][x].f \/ in.g[E2(k)][x].f) THEN 0 ELSE IF in.hasw THEN in.d[k][x].w ELSE 1
Term(k, x) == LET m == in.d[in.red[k]][x].m
                  mm == IF in.hasg THEN Mul(Mul(m, in.g[E1(k)][x].g), Cj(in.g[E2(k)][x].g)) ELSE m
              IN Wt(k, x) * N2(Sub(in.d[k][x].d, mm))
TotKey(k) == IF in.split THEN k[3][1] ELSE "all"
Cell0 == [c |-> [x \in Pix |-> 0], n |-> [x \in Pix |-> 0]]
AddTo(fn, key, k) == LET old == IF key \in DOMAIN fn THEN fn[key] ELSE Cell0
   IN [y \in DOMAIN fn \cup {key} |-> IF y = key THEN [c |-> [x \in Pix |-> old.c[x] + Term(k, x)], n |-> [x \in Pix |-> old.n[x] + (IF Wt(k, x) > 0 THEN 1 ELSE 0)]] ELSE fn[y]]
AddBl(ac, k) == IF ~Counts(k) THEN ac ELSE [tot |-> AddTo(ac.tot, TotKey(k), k), ant |-> AddTo(AddTo(ac.ant, E1(k), k), E2(k), k)]
RowsOf(fn) == [t \in 1..NT |-> [f \in 1..NF |-> fn[<<t, f>>]]]
Obs(ac) == [tot |-> {[k |-> y, c |-> RowsOf(ac.tot[y].c), n |-> RowsOf(ac.tot[y].n)] : y \in DOMAIN ac.tot},
            ant |-> {[k |-> y, c |-> RowsOf(ac.ant[y].c), n |-> RowsOf(ac.ant[y].n)] : y \in DOMAIN ac.ant}]
Call == /\ pc = "acc" /\ done < Len(in.calls) /\ done' = done + 1 /\ UNCHANGED <<pc, in>>
        /\ \E a \in {TLCEval(FoldLeft(LAMBDA ac, k : TLCEval(AddBl(ac, k)), acc, in.calls[done + 1]))} : acc' = a /\ hist' = Append(hist, Obs(a))
All == UNION {{in.calls[i][j] : j \in 1..Len(in.calls[i])} : i \in 1..Len(in.calls)}
Emit == /\ pc = "acc" /\ done = Len(in.calls) /\ pc' = "end" /\ UNCHANGED <<in, done, acc, hist>>
        /\ CSVWrite("%1$s", <<ToJson([split |-> in.split, hasg |-> in.hasg, hasf |-> in.hasf, hasw |-> in.hasw, useR |-> in.useR, calls |-> in.calls, nomod |-> in.nomod, now |-> in.now,
              red |-> {<<k, in.red[k]>> : k \in All}, d |-> {[k |-> k, v |-> RowsOf(in.d[k])] : k \in All}, g |-> {[a |-> a, v |-> RowsOf(in.g[a])] : a \in Ants \X {"n", "e"}}, hist |-> hist])>>, IOEnv.OUT)
Init == pc = "start" /\ in = <<>> /\ done = 0 /\ acc = <<>> /\ hist = <<>>
Next == Make \/ Call \/ Emit
\* ---- what a user relies on ------------------------------------------------------------------------------------
\* the totals are those of one call with everything, in any order; each baseline counts once per antenna it has
OnePass == pc = "end" =>
  /\ \A y \in DOMAIN acc.tot : \A x \in Pix :
       /\ acc.tot[y].c[x] = FoldSet(LAMBDA k, s : s + Term(k, x), 0, {k \in All : Counts(k) /\ TotKey(k) = y})
       /\ acc.tot[y].n[x] = Cardinality({k \in All : Counts(k) /\ TotKey(k) = y /\ Wt(k, x) > 0})
  /\ \A y \in DOMAIN acc.ant : \A x \in Pix : acc.ant[y].n[x] = Cardinality({k \in All : Counts(k) /\ y \in {E1(k), E2(k)} /\ Wt(k, x) > 0})
Twice == pc = "end" => \A x \in Pix :
   FoldSet(LAMBDA y, s : s + acc.ant[y].c[x], 0, DOMAIN acc.ant) = 2 * FoldSet(LAMBDA y, s : s + acc.tot[y].c[x], 0, DOMAIN acc.tot)
=============================================================================
