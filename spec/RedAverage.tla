------------------------------ MODULE RedAverage ------------------------------
(* C13.  Data: for every stored (oriented) pair, polarization and pixel a value (Gaussian integer), a flag, a sample
   count; for every pair and time an integration time.  Averaging the groups of `reds` gives, under each present
   group's key, sum(w d)/sum(w), summed samples and a flag.  Values read in a group's orientation are conjugated when
   the pair is stored the other way round (with the polarization's feeds exchanged).                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Ants, NT, NF, Mode
VARIABLES pc, in, out
RE(S) == {RandomElement(S)}
RevP(p) == <<p[2], p[1]>>
Swap(q) == <<q[2], q[1]>>
Pols2 == {<<"n", "n">>, <<"e", "e">>, <<"n", "e">>, <<"e", "n">>}
OnePer(S) == {p \in S : ~(RevP(p) \in S /\ p[1] < p[2])}
Pix == (1..NT) \X (1..NF)
\* split a sequence of pairs into groups at random cut points
GroupsOf(s) == LET n == Len(s)  cuts == RandomSubset(RandomElement(0..(n - 1)), 1..(n - 1))
                   e == <<0>> \o SetToSortSeq(cuts, <) \o <<n>>
               IN [i \in 1..(Len(e) - 1) |-> [k \in 1..(e[i + 1] - e[i]) |-> s[e[i] + k]]]
RECURSIVE Shuf(_)
Shuf(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<IF RandomElement(BOOLEAN) THEN x ELSE RevP(x)>> \o Shuf(S \ {x})
Make == /\ pc = "start" /\ pc' = "go" /\ UNCHANGED out
  /\ \E auto \in RE(1..4) : \E pols \in RE(IF auto = 1 THEN {{<<"n", "n">>}, {<<"n", "n">>, <<"e", "e">>}} ELSE {{<<"n", "n">>}, {<<"n", "n">>, <<"e", "e">>}, Pols2, Pols2}) :
     LET A == {p \in Ants \X Ants : (p[1] # p[2] /\ auto # 1) \/ (p[1] = p[2] /\ auto = 1)} IN
     \E P \in {OnePer(RandomSubset(RandomElement(2..Min({8, Cardinality(A)})), A))} :
     \E absent \in {RandomSubset(RandomElement(0..(Cardinality(P) - 1)), P)}, seq \in {Shuf(P)},
        wmode \in RE({"none", "none", "given"}), prop \in RE(BOOLEAN), keymode \in RE({"first", "given"}), nsmode \in RE({"given", "given", "none"}) :
     \E D \in {RandomSubset(RandomElement(1..Cardinality(P \ absent)), P \ absent)} :
     \E groups \in {GroupsOf(seq)}, deadpol \in RE(pols) :
     \E vv \in {TLCEval([p \in D |-> TLCEval([q \in pols |-> TLCEval([x \in Pix |-> [d |-> <<RandomElement(-5..9), IF p[1] = p[2] THEN 0 ELSE RandomElement(-7..5)>>,
                       f |-> RandomElement(1..3) = 1 \/ (q = deadpol /\ RandomElement(1..2) = 1), n |-> RandomElement(0..4), w |-> RandomElement(0..3)]])])])},
        tt \in {TLCEval([p \in D |-> TLCEval([t \in 1..NT |-> RandomElement(1..3)])])} :
     in' = [stored |-> D, groups |-> groups, pols |-> pols, wmode |-> wmode, prop |-> prop, keymode |-> keymode,
            nsmode |-> nsmode, tint |-> tt,
            \* keys offered for every group, also absent ones; a present group's key is one of its present members
            gkeys |-> [g \in 1..Len(groups) |-> LET m == {k \in 1..Len(groups[g]) : groups[g][k] \in D \/ RevP(groups[g][k]) \in D}
                                                IN IF m = {} THEN groups[g][1] ELSE groups[g][RandomElement(m)]],
            val |-> vv]
\* ---- what the average must be -----------------------------------------------------------------------------
Has(p) == p \in in.stored \/ RevP(p) \in in.stored
Present == {g \in 1..Len(in.groups) : \E k \in 1..Len(in.groups[g]) : Has(in.groups[g][k])}
Members(g) == SelectSeq(in.groups[g], Has)
Cell(p, q, x) == IF p \in in.stored THEN in.val[p][q][x]
                 ELSE LET c == in.val[RevP(p)][Swap(q)][x] IN [c EXCEPT !.d = <<@[1], -@[2]>>]
Tint(p, t) == IF Mode = "dc" THEN 1 ELSE IF p \in in.stored THEN in.tint[p][t] ELSE in.tint[RevP(p)][t]
NsOf(c) == IF in.nsmode = "none" /\ Mode = "dc" THEN 1 ELSE c.n
FlOf(c) == IF in.nsmode = "none" /\ Mode = "dc" THEN FALSE ELSE c.f       \* "none": neither flags nor counts are given
W(p, q, x) == LET c == Cell(p, q, x) IN IF in.wmode = "given" THEN c.w * Tint(p, x[1]) ELSE (IF FlOf(c) THEN 0 ELSE NsOf(c)) * Tint(p, x[1])
SumS(s, Op(_)) == FoldSeq(LAMBDA p, acc : acc + Op(p), 0, s)
Avg(g, q, x) ==
   LET m == Members(g)
       ws == SumS(m, LAMBDA p : W(p, q, x))
       used(p) == W(p, q, x) > 0
   IN [w |-> ws, re |-> SumS(m, LAMBDA p : W(p, q, x) * Cell(p, q, x).d[1]), im |-> SumS(m, LAMBDA p : W(p, q, x) * Cell(p, q, x).d[2]),
       n |-> SumS(m, LAMBDA p : IF used(p) THEN NsOf(Cell(p, q, x)) ELSE 0),
       f |-> IF in.prop THEN \A k \in 1..Len(m) : ~used(m[k]) \/ FlOf(Cell(m[k], q, x)) ELSE ws = 0]
\* the integration time of an average is the mean over the members not wholly flagged in that integration
TintAvg(g, q, t) == LET m == SelectSeq(Members(g), LAMBDA p : \E f \in 1..NF : ~FlOf(Cell(p, q, <<t, f>>))) IN <<SumS(m, LAMBDA p : Tint(p, t)), Len(m)>>
Key(g) == IF in.keymode = "given" THEN in.gkeys[g] ELSE Members(g)[1]
RowsOf(fn) == [t \in 1..NT |-> [f \in 1..NF |-> fn[<<t, f>>]]]
Run == /\ pc = "go" /\ pc' = "end" /\ UNCHANGED in
       /\ \E r \in {{[key |-> Key(g), pol |-> q, ti |-> [t \in 1..NT |-> TintAvg(g, q, t)], v |-> RowsOf([x \in Pix |-> Avg(g, q, x)])] : g \in Present, q \in in.pols}} :
          /\ out' = r
          /\ CSVWrite("%1$s", <<ToJson([in |-> [stored |-> {[p |-> p, tint |-> in.tint[p], pol |-> {[q |-> q, v |-> RowsOf(in.val[p][q])] : q \in in.pols}] : p \in in.stored},
                     groups |-> in.groups, gkeys |-> in.gkeys, wmode |-> in.wmode, nsmode |-> in.nsmode, prop |-> in.prop, keymode |-> in.keymode, pols |-> in.pols], out |-> r])>>, IOEnv.OUT)
Init == pc = "start" /\ in = <<>> /\ out = {}
Next == Make \/ Run
\* ---- what a user relies on --------------------------------------------------------------------------------
\* with default weights the samples of unflagged members are conserved, and a cell is flagged exactly when nothing contributed
Conserves == pc = "end" /\ in.wmode = "none" => \A r \in out : \A t \in 1..NT, f \in 1..NF :
     LET g == CHOOSE h \in Present : Key(h) = r.key
         contrib == {k \in 1..Len(Members(g)) : ~FlOf(Cell(Members(g)[k], r.pol, <<t, f>>)) /\ NsOf(Cell(Members(g)[k], r.pol, <<t, f>>)) > 0}
     IN /\ r.v[t][f].n = FoldSet(LAMBDA k, acc : acc + NsOf(Cell(Members(g)[k], r.pol, <<t, f>>)), 0, contrib)
        /\ r.v[t][f].f = (contrib = {})
OnePerGroup == pc = "end" => Cardinality({r.key : r \in out}) = Cardinality(Present)
=============================================================================
