---------------------------- MODULE NoiseAverage ----------------------------
(* C25.  Calibrating and averaging redundant groups with inverse-noise weights taken from the autocorrelations, with
   excluded antennas, flags of three kinds and the correction of per-SNAP decoherence.  Gains are i^u 2^k, autocorrelations
   and decoherence losses powers of two, so that every calibrated value and every (scaled) weight is an integer:
   the true weight is w dt df / 65536.                                                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Ants, NT, NB, BW        \* antennas; integrations, blocks, channels per block
VARIABLES pc, in, out
RE(S) == {RandomElement(S)}
NF == NB * BW
Pix == (1..NT) \X (1..NF)
BlockOf(x) == ((x[2] - 1) \div BW) + 1
RevP(p) == <<p[2], p[1]>>
AntPols == Ants \X {"e", "n"}
Unit == 64
Pow2(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 ELSE IF n = 2 THEN 4 ELSE IF n = 3 THEN 8 ELSE 16
\* z times (-i)^n
Rot(z, n) == LET m == n % 4 IN IF m = 0 THEN z ELSE IF m = 1 THEN <<z[2], -z[1]>> ELSE IF m = 2 THEN <<-z[1], -z[2]>> ELSE <<-z[2], z[1]>>
GroupsOf(s) == LET n == Len(s)  cuts == RandomSubset(RandomElement(0..(IF n > 2 THEN 2 ELSE n - 1)), 1..(n - 1))
                   e == <<0>> \o SetToSortSeq(cuts, <) \o <<n>>
               IN [i \in 1..(Len(e) - 1) |-> [k \in 1..(e[i + 1] - e[i]) |-> s[e[i] + k]]]
RECURSIVE Shuf(_)
Shuf(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<IF RandomElement(BOOLEAN) THEN x ELSE RevP(x)>> \o Shuf(S \ {x})
PolSets == {{<<"e", "e">>}, {<<"e", "e">>, <<"n", "n">>}, {<<"e", "e">>, <<"n", "n">>, <<"e", "n">>, <<"n", "e">>}, {<<"e", "e">>, <<"n", "n">>, <<"n", "e">>}}
Rare(n) == RandomElement(1..n) = 1
Sub(S, n) == IF S = {} THEN {} ELSE RandomSubset(RandomElement(0..Min({n, Cardinality(S)})), S)
Wf(T(_)) == TLCEval([x \in Pix |-> T(x)])
Make == /\ pc = "start" /\ pc' = "go" /\ UNCHANGED out
  /\ \E pols \in RE(PolSets), A \in {{p \in Ants \X Ants : p[1] < p[2]}} :
     \E P \in {RandomSubset(RandomElement(2..Min({6, Cardinality(A)})), A)} :
     \E seq \in {Shuf(P)} : \E groups \in {GroupsOf(seq)} :
     \E AP \in {{a \in AntPols : <<a[2], a[2]>> \in pols}} :
     \E nogain \in {IF Rare(3) THEN Sub(AP, 1) ELSE {}}, noauto \in {IF Rare(3) THEN Sub(AP, 1) ELSE {}}, ex \in {IF Rare(2) THEN {} ELSE Sub(AP, 2)},
        absent \in {{q \in P \X pols : Rare(6)}}, xauto \in RE(BOOLEAN), snap \in RE(BOOLEAN), dflags \in RE(BOOLEAN) :
     \E gain \in {TLCEval([a \in AP |-> Wf(LAMBDA x : [u |-> RandomElement(0..3), k |-> RandomElement(0..1), nan |-> Rare(9)])])},
        aflag \in {TLCEval([a \in AP |-> LET dead == Rare(8) IN Wf(LAMBDA x : dead \/ Rare(7))])},
        auto \in {TLCEval([a \in AP |-> Wf(LAMBDA x : IF Rare(25) THEN 0 ELSE RandomElement({1, 2, 4}))])},
        xval \in {TLCEval([q \in (Ants \X {p \in pols : p[1] # p[2]}) |-> Wf(LAMBDA x : <<RandomElement(-3..3), RandomElement(-3..3)>>)])},
        val \in {TLCEval([q \in {q \in P \X pols : q \notin absent} |-> Wf(LAMBDA x : <<RandomElement(-3..3), RandomElement(-3..3)>>)])},
        bflag \in {TLCEval([q \in (P \cup {<<a, a>> : a \in Ants}) \X pols |-> LET dead == Rare(9) IN Wf(LAMBDA x : dflags /\ (dead \/ Rare(6)))])},
        flip \in {TLCEval([q \in P \X pols |-> RandomElement(BOOLEAN)])},
        mapped \in {TLCEval([a \in Ants |-> RandomElement(1..3)])} :
     \* the result may lack a SNAP only if none of its antennas take part in the averages
     \E lack \in {{s \in 1..3 : Rare(2) /\ \A a \in AP : mapped[a[1]] = s => a \in ex}} :
     \E loss \in {TLCEval([s \in (1..3) \ lack |-> TLCEval([x \in (1..NT) \X (1..NB) |-> IF Rare(8) THEN 2 ELSE RandomElement(0..1)])])} :
     in' = [pols |-> pols, groups |-> groups, AP |-> AP \ nogain, autos |-> AP \ noauto, ex |-> ex, xauto |-> xauto, snap |-> snap, dflags |-> dflags,
            gain |-> gain, aflag |-> aflag, auto |-> auto, xval |-> xval, val |-> val, bflag |-> bflag, flip |-> flip, mapped |-> mapped, loss |-> loss,
            chi |-> RandomElement(1..4) # 1, eff |-> RandomElement(1..3) # 1, given |-> RandomElement(BOOLEAN)]
\* ---- the calibrated array ---------------------------------------------------------------------------------
E1(b) == <<b[1][1], b[2][1]>>                     \* b = <<pair, pol>>: its first and second antenna-polarization
E2(b) == <<b[1][2], b[2][2]>>
Loss(a, x) == IF in.snap /\ in.mapped[a] \in DOMAIN in.loss THEN in.loss[in.mapped[a]][<<x[1], BlockOf(x)>>] ELSE 0
Sup(a, x) == IF Loss(a, x) = 1 THEN 1 ELSE 0
Inter(p) == in.snap /\ in.mapped[p[1]] # in.mapped[p[2]]
GK(a, x) == IF in.gain[a][x].nan THEN 0 ELSE in.gain[a][x].k
GU(a, x) == IF in.gain[a][x].nan THEN 0 ELSE in.gain[a][x].u
CalExp(b, x) == GK(E1(b), x) + GK(E2(b), x) + (IF Inter(b[1]) THEN 0 ELSE Sup(b[1][1], x) + Sup(b[1][2], x))
Sx(q) == <<q[2], q[1]>>
\* the datum of a baseline as it stands in the group (stored or read from the reverse)
Canon(p) == IF p[1] <= p[2] THEN p ELSE RevP(p)
Key(b) == IF b[1][1] <= b[1][2] THEN b ELSE <<RevP(b[1]), Sx(b[2])>>
Conj(z) == <<z[1], -z[2]>>
\* values are drawn per unordered pair and polarization of the group's orientation
Raw(b, x) == IF b[1][1] = b[1][2] THEN (IF b[2][1] = b[2][2] THEN <<in.auto[E1(b)][x], 0>> ELSE in.xval[<<b[1][1], b[2]>>][x])
             ELSE in.val[<<Canon(b[1]), b[2]>>][x]
InData(b) == IF b[1][1] = b[1][2] THEN (IF b[2][1] = b[2][2] THEN E1(b) \in in.autos ELSE TRUE) ELSE <<Canon(b[1]), b[2]>> \in DOMAIN in.val
Cal(b, x) == LET z == Rot(Raw(b, x), GU(E1(b), x) + 4 - GU(E2(b), x))  d == Pow2(CalExp(b, x)) IN <<(z[1] * Unit) \div d, (z[2] * Unit) \div d>>
A(a, x) == (in.auto[a][x] * Unit) \div Pow2(2 * (GK(a, x) + Sup(a[1], x)))
Flag(b, x) == \/ in.gain[E1(b)][x].nan \/ in.aflag[E1(b)][x] \/ in.gain[E2(b)][x].nan \/ in.aflag[E2(b)][x]
              \/ in.bflag[<<Canon(b[1]), b[2]>>][x]
              \/ Inter(b[1]) /\ (Loss(b[1][1], x) = 2 \/ Loss(b[1][2], x) = 2)
W(b, x) == IF Flag(b, x) \/ A(E1(b), x) * A(E2(b), x) = 0 THEN 0 ELSE 65536 \div (A(E1(b), x) * A(E2(b), x))
Usable(b, nex) == /\ InData(b) /\ {E1(b), E2(b)} \subseteq in.AP /\ {E1(b), E2(b)} \subseteq in.autos
                  /\ (IF E1(b) \in in.ex THEN 1 ELSE 0) + (IF E2(b) \in in.ex THEN 1 ELSE 0) = nex
AnyW(b) == \E x \in Pix : W(b, x) > 0
Members(g, q) == LET s == [i \in 1..Len(in.groups[g]) |-> <<in.groups[g][i], q>>] IN SelectSeq(s, LAMBDA b : Usable(b, 0) /\ AnyW(b))
Guests(g, q) == LET s == [i \in 1..Len(in.groups[g]) |-> <<in.groups[g][i], q>>] IN SelectSeq(s, LAMBDA b : Usable(b, 1) /\ AnyW(b))
SumS(s, Op(_)) == FoldSeq(LAMBDA b, acc : acc + Op(b), 0, s)
Cross(g, q) == LET m == Members(g, q) IN
   [key |-> m[1], pol |-> q, members |-> m, guests |-> Guests(g, q),
    v |-> [t \in 1..NT |-> [f \in 1..NF |-> LET x == <<t, f>> IN
            [w |-> SumS(m, LAMBDA b : W(b, x)), re |-> SumS(m, LAMBDA b : W(b, x) * Cal(b, x)[1]), im |-> SumS(m, LAMBDA b : W(b, x) * Cal(b, x)[2]),
             n |-> SumS(m, LAMBDA b : IF W(b, x) > 0 THEN 1 ELSE 0),
             each |-> [i \in 1..Len(m) |-> [w |-> W(m[i], x), c |-> Cal(m[i], x)]],
             guest |-> [i \in 1..Len(Guests(g, q)) |-> [w |-> W(Guests(g, q)[i], x), c |-> Cal(Guests(g, q)[i], x)]]]]]]
AutoPols == {q \in in.pols : q[1] = q[2] \/ in.xauto}
AutoMembers(q) == SelectSeq([i \in 1..Cardinality(Ants) |-> <<<<SetToSortSeq(Ants, <)[i], SetToSortSeq(Ants, <)[i]>>, q>>], LAMBDA b : Usable(b, 0))
Auto(q) == LET m == AutoMembers(q)  B(b, x) == IF Flag(b, x) THEN 0 ELSE 1 IN
   [key |-> m[1], pol |-> q,
    v |-> [t \in 1..NT |-> [f \in 1..NF |-> LET x == <<t, f>> IN
            [w |-> SumS(m, LAMBDA b : B(b, x)), re |-> SumS(m, LAMBDA b : B(b, x) * Cal(b, x)[1]), im |-> SumS(m, LAMBDA b : B(b, x) * Cal(b, x)[2]),
             prod |-> SumS(m, LAMBDA b : B(b, x) * A(E1(b), x) * A(E2(b), x))]]]]
\* correcting the raw data alone: between SNAPs multiplied by 2 for each of the two losses of a half; refused if an unmeasured
\* loss meets unflagged data between SNAPs, or if a SNAP has no result
SnapOK == in.snap /\ \A a \in Ants : (\E b \in DOMAIN in.val : a \in {b[1][1], b[1][2]}) => in.mapped[a] \in DOMAIN in.loss
Corrected == LET D == DOMAIN in.val IN
   [bad |-> ~SnapOK \/ \E b \in D : Inter(b[1]) /\ \E x \in Pix : (Loss(b[1][1], x) = 2 \/ Loss(b[1][2], x) = 2) /\ ~in.bflag[<<Canon(b[1]), b[2]>>][x],
    v |-> IF SnapOK THEN {[b |-> b, e |-> [t \in 1..NT |-> [f \in 1..NF |-> IF Inter(b[1]) THEN Sup(b[1][1], <<t, f>>) + Sup(b[1][2], <<t, f>>) ELSE 0]]] : b \in D} ELSE {}]
Rows(fn) == [t \in 1..NT |-> [f \in 1..NF |-> fn[<<t, f>>]]]
Run == /\ pc = "go" /\ pc' = "end" /\ UNCHANGED in
       /\ \E r \in {[cross |-> {},
                     autos |-> {Auto(q) : q \in {q \in AutoPols : AutoMembers(q) # <<>>}}, corrected |-> Corrected]} :
          \E cr \in {UNION {{Cross(g, q) : g \in {h \in 1..Len(in.groups) : Members(h, q) # <<>>}} : q \in in.pols}} :
          /\ out' = [r EXCEPT !.cross = cr]
          /\ CSVWrite("%1$s", <<ToJson([in |-> [in EXCEPT !.gain = {[a |-> a, v |-> Rows(in.gain[a])] : a \in in.AP},
                        !.aflag = {[a |-> a, v |-> Rows(in.aflag[a])] : a \in DOMAIN in.aflag}, !.auto = {[a |-> a, v |-> Rows(in.auto[a])] : a \in in.autos},
                        !.xval = {[b |-> b, v |-> Rows(in.xval[b])] : b \in DOMAIN in.xval}, !.val = {[b |-> b, v |-> Rows(in.val[b]), flip |-> in.flip[b]] : b \in DOMAIN in.val},
                        !.bflag = {[b |-> b, v |-> Rows(in.bflag[b])] : b \in DOMAIN in.bflag}, !.flip = 0,
                        !.mapped = {<<a, in.mapped[a]>> : a \in Ants},
                        !.loss = {[s |-> s, v |-> [t \in 1..NT |-> [k \in 1..NB |-> in.loss[s][<<t, k>>]]]] : s \in DOMAIN in.loss}],
                     out |-> [r EXCEPT !.cross = cr]])>>, IOEnv.OUT)
Init == pc = "start" /\ in = <<>> /\ out = <<>>
Next == Make \/ Run
\* ---- what a user relies on --------------------------------------------------------------------------------
\* no excluded antenna enters an average; a cell has weight exactly when an unflagged member has noise; degrees of
\* freedom of the members of a group add up to one less than their number: sum over members of w equals the total weight
Sound == pc = "end" => \A c \in out.cross :
   /\ \A i \in 1..Len(c.members) : E1(c.members[i]) \notin in.ex /\ E2(c.members[i]) \notin in.ex
   /\ \A i \in 1..Len(c.guests) : Cardinality({E1(c.guests[i]), E2(c.guests[i])} \cap in.ex) = 1
   /\ \A t \in 1..NT, f \in 1..NF : LET v == c.v[t][f] IN
        /\ v.w = FoldSeq(LAMBDA e, acc : acc + e.w, 0, v.each)
        /\ (v.w > 0) = (\E i \in 1..Len(c.members) : ~Flag(c.members[i], <<t, f>>) /\ A(E1(c.members[i]), <<t, f>>) > 0 /\ A(E2(c.members[i]), <<t, f>>) > 0)
=============================================================================
