----------------------------- MODULE FlagAlgebra -----------------------------
(* C12.  Flags are sets of <<time, channel>> pixels.  The operators below define what per-antenna synthesis,
   factorization, thresholding/broadcasting and minimal boxes mean; behaviours are random (or, for the small
   grids, all) inputs together with the specified outputs, which the real code must return.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt, Folds, FlagThresh
CONSTANTS Kinds, MaxT, MaxF, Ants, Exh
VARIABLES pc, in, out
vars == <<pc, in, out>>
RE(S) == {RandomElement(S)}
RSub(S) == RandomSubset(RandomElement(0..Cardinality(S)), S)
\* random flags with structure: scattered pixels, whole rows, whole columns, sometimes everything
RFlags(nt, nf) ==
   LET c == RandomElement(1..8)
       dots == RandomSubset(RandomElement(0..((nt * nf) \div (IF c < 4 THEN 3 ELSE 1))), Grid(nt, nf))
       rows == RandomSubset(RandomElement(0..(IF c \in {2, 5} THEN nt ELSE 1)), 1..nt)
       cols == RandomSubset(RandomElement(0..(IF c \in {3, 6} THEN nf ELSE 1)), 1..nf)
   IN IF c = 8 THEN Grid(nt, nf) ELSE dots \cup {p \in Grid(nt, nf) : (c > 1 /\ p[1] \in rows) \/ (c > 1 /\ p[2] \in cols)}
Thr == {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<3, 4>>, <<1, 1>>, <<17, 100>>, <<37, 100>>, <<71, 100>>}
\* ---- per-antenna flags ------------------------------------------------------------------------------------
\* B: function from baseline keys <<i, j, p, q>> (antennas and the feed letters of each end) to flagged pixels
EndsOf(b) == {<<b[1], b[3]>>, <<b[2], b[4]>>}
Feeds(B) == UNION {EndsOf(b) : b \in DOMAIN B}
Dead(B, G, a) == \A b \in DOMAIN B : a \in EndsOf(b) => B[b] = G
Live(B, G) == {b \in DOMAIN B : \A a \in EndsOf(b) : ~Dead(B, G, a)}
\* a threshold of one means "all of them"
Reach(k, n, th) == IF th = <<1, 1>> THEN n > 0 /\ k = n ELSE Exceeds(k, n, th)
Mult(b, w) == IF Cardinality(EndsOf(b)) = 1 THEN w ELSE 1      \* an autocorrelation may be counted once or once per end
SumOf(S, w) == FoldSet(LAMBDA b, acc : acc + Mult(b, w), 0, S)
AntFlagsW(B, G, a, w) == IF Dead(B, G, a) THEN G
   ELSE LET L == {b \in Live(B, G) : a \in EndsOf(b)} IN
        {p \in G : Reach(SumOf({b \in L : p \in B[b]}, w), SumOf(L, w), in.thr)}
\* ---- factorization ----------------------------------------------------------------------------------------
FactSpw(F, nt, nf, lo, hi, th) ==
   LET rows == (1..nt) \ FullRows(F, nt, nf)
       chans == {f \in lo..hi : Exceeds(Cardinality({t \in rows : <<t, f>> \in F}), Cardinality(rows), th)}
       ints == {t \in 1..nt : \E f \in (lo..hi) \ chans : <<t, f>> \in F}
   IN F \cup {p \in Grid(nt, nf) : p[2] \in chans \/ p[1] \in ints}
Fact(F, nt, nf, spws, th) == FoldLeft(LAMBDA acc, s : FactSpw(acc, nt, nf, s[1], s[2], th), F, spws)
\* ---- minimal boxes: cuts are channel gaps k (between channel k and k+1); 0 = band entirely flagged ------------
Box(F, nt, nf, lo, hi) == LET U == {p \in Grid(nt, nf) \ F : lo <= p[2] /\ p[2] <= hi}
   IN IF U = {} THEN <<0, 0, 0, 0>> ELSE <<Min({p[1] : p \in U}), Max({p[1] : p \in U}), Min({p[2] : p \in U}), Max({p[2] : p \in U})>>
Boxes(F, nt, nf, cuts) == LET e == <<0>> \o SetToSortSeq(cuts, <) \o <<nf>> IN [i \in 1..(Len(e) - 1) |-> Box(F, nt, nf, e[i] + 1, e[i + 1])]
\* ---- behaviours ---------------------------------------------------------------------------------------------
OneKey(S) == {b \in S : ~(<<b[2], b[1], b[4], b[3]>> \in S /\ (b[1] < b[2] \/ (b[1] = b[2] /\ b[3] = "e" /\ b[4] = "n")))}
Synth == \E nt \in RE(1..MaxT), nf \in RE(1..MaxF), th \in RE(Thr), auto \in RE(BOOLEAN),
            pp \in RE({{<<"n", "n">>}, {<<"n", "n">>, <<"e", "e">>}, {"n", "e"} \X {"n", "e"}}) :
   LET U == {<<p[1], p[2], q[1], q[2]>> : p \in {x \in Ants \X Ants : auto \/ x[1] # x[2]}, q \in pp}
   IN \E S \in {OneKey(RandomSubset(RandomElement(1..Min({14, Cardinality(U)})), U))}, dead \in {RandomSubset(RandomElement(0..2), Ants)} :
      S # {} /\ \E B \in {[b \in S |-> IF {b[1], b[2]} \cap dead # {} THEN Grid(nt, nf) ELSE RFlags(nt, nf)]} :
      in' = [kind |-> "synth", nt |-> nt, nf |-> nf, thr |-> th, bls |-> {[k |-> b, f |-> B[b]] : b \in S}]
FactIn == \E nt \in RE(1..MaxT), nf \in RE(2..MaxF), th \in RE(Thr), c \in RE(1..4) : \E a \in RE(1..(nf - 1)) : \E b \in RE(a..(nf - 1)) :
   in' = [kind |-> "fact", nt |-> nt, nf |-> nf, thr |-> th, f |-> RFlags(nt, nf),
          spws |-> CASE c = 1 -> <<<<1, nf>>>> [] c = 2 -> <<<<1, a>>, <<a + 1, nf>>>> [] c = 3 -> <<<<a, b>>>> [] OTHER -> <<<<b + 1, nf>>, <<1, a>>>>]
ThrIn == \E nt \in RE(1..MaxT), nf \in RE(1..MaxF), na \in RE(1..3), tf \in RE(Thr), tt \in RE(Thr), ta \in RE(Thr) : \E com \in {RFlags(nt, nf)} :
   in' = [kind |-> "thr", nt |-> nt, nf |-> nf, tf |-> tf, tt |-> tt, ta |-> ta,
          fl |-> [a \in 1..na |-> com \cup (IF RandomElement(1..2) = 1 THEN {} ELSE RFlags(nt, nf))]]
BoxIn == \E nt \in RE(1..MaxT), nf \in RE(2..MaxF) : \E cuts \in {RandomSubset(RandomElement(0..Min({2, nf - 1})), 1..(nf - 1))} :
   in' = [kind |-> "box", nt |-> nt, nf |-> nf, f |-> RFlags(nt, nf), cuts |-> cuts]
DistIn == \E nt \in RE(1..MaxT), nf \in RE(1..MaxF) : in' = [kind |-> "dist", nt |-> nt, nf |-> nf, f |-> RFlags(nt, nf)]
Abs(x) == IF x < 0 THEN -x ELSE x
Dist(F, t, f, nf) == IF \A g \in 1..nf : <<t, g>> \notin F THEN 999 ELSE Min({Abs(g - f) : g \in {h \in 1..nf : <<t, h>> \in F}})
ExhIn == \E th \in {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<37, 100>>} :
   \/ \E F \in SUBSET Grid(3, 3), sp \in {<<<<1, 3>>>>, <<<<1, 2>>, <<3, 3>>>>, <<<<2, 2>>>>} : in' = [kind |-> "fact", nt |-> 3, nf |-> 3, thr |-> th, f |-> F, spws |-> sp]
   \/ \E F \in SUBSET Grid(3, 3), t2 \in {<<1, 4>>, <<1, 2>>, <<71, 100>>} : in' = [kind |-> "thr", nt |-> 3, nf |-> 3, tf |-> th, tt |-> t2, ta |-> <<1, 1>>, fl |-> <<F>>]
   \/ \E F \in SUBSET Grid(3, 3), c \in {{}, {1}, {2}, {1, 2}} : th = <<0, 1>> /\ in' = [kind |-> "box", nt |-> 3, nf |-> 3, f |-> F, cuts |-> c]
Make == pc = "start" /\ pc' = "go" /\ UNCHANGED out
   /\ IF Exh THEN ExhIn
      ELSE \/ ("synth" \in Kinds /\ Synth)
           \/ ("fact" \in Kinds /\ FactIn)
           \/ ("thr" \in Kinds /\ ThrIn)
           \/ ("box" \in Kinds /\ BoxIn)
           \/ ("dist" \in Kinds /\ DistIn)
G == Grid(in.nt, in.nf)
BF == [b \in {x.k : x \in in.bls} |-> (CHOOSE x \in in.bls : x.k = b).f]
Result == CASE in.kind = "synth" -> {[a |-> a, f1 |-> AntFlagsW(BF, G, a, 1), f2 |-> AntFlagsW(BF, G, a, 2)] : a \in Feeds(BF)}
            [] in.kind = "fact" -> Fact(in.f, in.nt, in.nf, in.spws, in.thr)
            [] in.kind = "thr" -> Thresh(in.fl, in.nt, in.nf, in.tf, in.tt, in.ta)
            [] in.kind = "box" -> Boxes(in.f, in.nt, in.nf, in.cuts)
            [] OTHER -> [t \in 1..in.nt |-> [f \in 1..in.nf |-> Dist(in.f, t, f, in.nf)]]
Run == /\ pc = "go" /\ pc' = "end" /\ UNCHANGED in
       /\ \E r \in {Result} : out' = r /\ CSVWrite("%1$s", <<ToJson([in |-> in, out |-> r])>>, IOEnv.OUT)
Init == pc = "start" /\ in = <<>> /\ out = <<>>
Next == Make \/ Run
\* ---- what a user relies on ------------------------------------------------------------------------------------
NeverUnflags == pc = "end" =>
   CASE in.kind = "fact" -> in.f \subseteq out
     [] in.kind = "thr" -> \A a \in DOMAIN in.fl : in.fl[a] \subseteq out[a]
     [] OTHER -> TRUE
Stable == pc = "end" =>
   CASE in.kind = "thr" -> Thresh(out, in.nt, in.nf, in.tf, in.tt, in.ta) = out
     [] in.kind = "fact" -> Len(in.spws) > 1 \/ Fact(out, in.nt, in.nf, in.spws, in.thr) = out
     [] OTHER -> TRUE
\* a factorized window is a union of whole rows and whole columns of the window
Separable == pc = "end" /\ in.kind = "fact" /\ Len(in.spws) = 1 =>
   LET lo == in.spws[1][1]  hi == in.spws[1][2]
       W == {p \in out : lo <= p[2] /\ p[2] <= hi}
   IN \A p \in W : (\A t \in 1..in.nt : <<t, p[2]>> \in out) \/ (\A f \in lo..hi : <<p[1], f>> \in out)
BoxCovers == pc = "end" /\ in.kind = "box" =>
   \A p \in G \ in.f : \E i \in 1..Len(out) : out[i][1] <= p[1] /\ p[1] <= out[i][2] /\ out[i][3] <= p[2] /\ p[2] <= out[i][4]
DeadStaysOut == pc = "end" /\ in.kind = "synth" => \A r \in out : Dead(BF, G, r.a) => r.f1 = G
=============================================================================
