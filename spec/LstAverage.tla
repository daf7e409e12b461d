------------------------------ MODULE LstAverage ------------------------------
(* C18.  One sidereal-time bin: for every night, baseline, channel and polarization a value, a sample count and a kind:
   "ok" usable data, "flag" unusable, "inp" in-painted (flag cleared, sample count stored negative), "nan" not a number.
   The reduction over nights in flagged mode uses "ok" only; in in-painted mode it also uses "inp", and every night's
   weight is its mean sample count over the channels it really observed.  Counts never include in-painted data.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS NB, NC, NP, MaxNights
VARIABLES pc, in, out
RE(S) == {RandomElement(S)}
Cells == (1..NB) \X (1..NC) \X (1..NP)
L == 6                              \* common multiple of 1..NC
Kind(k) == CASE k <= 5 -> "ok" [] k = 6 -> "flag" [] k = 7 -> "flag" [] k = 8 -> "inp" [] k = 9 -> "inp" [] OTHER -> "nan"
Make == /\ pc = "start" /\ pc' = "go" /\ UNCHANGED out
  /\ \E nn \in RE(0..MaxNights), uni \in RE(BOOLEAN), mode \in RE(BOOLEAN), std \in RE(BOOLEAN), badnight \in RE(1..8), badkind \in RE({7, 9}), thr \in RE(0..4) :
     \E vv \in {TLCEval([i \in 1..nn |-> TLCEval(LET base == RandomElement(1..4) IN
               TLCEval([c \in Cells |-> TLCEval([d |-> <<RandomElement(-5..9), RandomElement(-7..5)>>,
                                k |-> Kind(IF i = badnight THEN badkind ELSE RandomElement(1..10)),
                                n |-> IF uni THEN base ELSE RandomElement(0..3)])]))])} :
     in' = [nn |-> nn, mode |-> mode, std |-> std, val |-> vv, thr |-> thr]
\* ---- what the reduction must be ---------------------------------------------------------------------------------
Ok(i, c) == in.val[i][c].k = "ok"
Usable(i, c) == Ok(i, c) \/ (in.mode /\ in.val[i][c].k = "inp")
Sum(S, Op(_)) == FoldSet(LAMBDA x, acc : acc + Op(x), 0, S)
Nights == 1..in.nn
Chans(c) == {<<c[1], ch, c[3]>> : ch \in 1..NC}
\* L times the weight of night i in cell c
W(i, c) == IF ~in.mode THEN L * in.val[i][c].n
           ELSE LET g == {e \in Chans(c) : Ok(i, e)} IN
                IF g = {} THEN 0 ELSE (L * Sum(g, LAMBDA e : in.val[i][e].n)) \div Cardinality(g)
Out(c) == LET U == {i \in Nights : Usable(i, c)}  G == {i \in Nights : Ok(i, c)} IN
   [w |-> Sum(U, LAMBDA i : W(i, c)),
    re |-> Sum(U, LAMBDA i : W(i, c) * in.val[i][c].d[1]), im |-> Sum(U, LAMBDA i : W(i, c) * in.val[i][c].d[2]),
    f |-> U = {}, nL |-> Sum(G, LAMBDA i : W(i, c)), days |-> Cardinality(G),
    \* sums for the scatter about the mean, over really observed data
    s2re |-> Sum(G, LAMBDA i : W(i, c) * in.val[i][c].d[1] * in.val[i][c].d[1]), s2im |-> Sum(G, LAMBDA i : W(i, c) * in.val[i][c].d[2] * in.val[i][c].d[2]),
    s1re |-> Sum(G, LAMBDA i : W(i, c) * in.val[i][c].d[1]), s1im |-> Sum(G, LAMBDA i : W(i, c) * in.val[i][c].d[2]),
    \* single-baseline stacker: weights are the plain sample counts of everything unflagged, in-painted or not
    bw |-> Sum({i \in Nights : in.val[i][c].k \in {"ok", "inp"}}, LAMBDA i : in.val[i][c].n + 1),
    bre |-> Sum({i \in Nights : in.val[i][c].k \in {"ok", "inp"}}, LAMBDA i : (in.val[i][c].n + 1) * in.val[i][c].d[1]),
    bim |-> Sum({i \in Nights : in.val[i][c].k \in {"ok", "inp"}}, LAMBDA i : (in.val[i][c].n + 1) * in.val[i][c].d[2]),
    bn |-> Sum(G, LAMBDA i : in.val[i][c].n + 1),
    \* thresholding over nights: everything is flagged where more than thr/4 of the nights are
    nflag |-> Cardinality({i \in Nights : in.val[i][c].k \in {"flag", "nan"}})]
Grid(fn) == [b \in 1..NB |-> [ch \in 1..NC |-> [p \in 1..NP |-> fn[<<b, ch, p>>]]]]
Run == /\ pc = "go" /\ pc' = "end" /\ UNCHANGED in
       /\ \E r \in {[c \in Cells |-> Out(c)]} :
          /\ out' = r
          /\ CSVWrite("%1$s", <<ToJson([in |-> [nn |-> in.nn, mode |-> in.mode, std |-> in.std, thr |-> in.thr, val |-> [i \in Nights |-> Grid(in.val[i])]], out |-> Grid(r)])>>, IOEnv.OUT)
Init == pc = "start" /\ in = <<>> /\ out = <<>>
Next == Make \/ Run
\* ---- what a user relies on -----------------------------------------------------------------------------------------
\* nothing that is flagged counts, and a cell without flag has something usable behind it
CountsOnlyGood == pc = "end" => \A c \in Cells : /\ out[c].days <= in.nn - out[c].nflag
                                                 /\ (out[c].days = 0 => out[c].nL = 0) /\ (out[c].f => out[c].w = 0 /\ out[c].days = 0)
FlagIffNothing == pc = "end" => \A c \in Cells : out[c].f <=> ~\E i \in Nights : Usable(i, c)
===============================================================================
