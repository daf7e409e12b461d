------------------------------- MODULE SkyCal -------------------------------
(* C27.  Calibration against a sky model (skycal).  Antennas sit on SNAPs; data are model visibilities seen through gains
   with amplitudes that are powers of two and phases counted in 720ths of a turn (an offset, a delay and some jitter).
   Whole antennas and whole channels may be unusable: flagged in the data, in the model or for an antenna, or with a model that
   vanishes or is not a number, with junk in the data.  The other data determine the gains up to one phase per channel, so the
   specification says what they are; baselines within a SNAP, and antennas left out, do not matter.  Four modes:
     cal   the whole staged calibration, and what must be refused
     exp   antennas left out are solved against the others: a weighted mean with exact Gaussian-integer arithmetic
     amp   starting amplitudes from autocorrelations, relative to the median of the unflagged ones
     dec   signal losses per SNAP and block of channels, relative to the least affected block of the band              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS NA, NT, NF, Mode
VARIABLES pc, in, out
\* random draws depend on the state, so that TLC does not take them for constants
Draw(S) == RandomElement(IF pc = "" THEN {} ELSE S)
DrawSet(k, S) == RandomSubset(IF pc = "" THEN 0 ELSE k, S)
RE(S) == {Draw(S)}
Rare(n) == Draw(1..n) = 1
Ants == 1..NA
Feeds == {"e", "n"}
Pairs == {p \in Ants \X Ants : p[1] < p[2]}
Cells == (1..NT) \X (1..NF)
\* ---- what determines the gains ----------------------------------------------------------------------------------
Grow(S, E) == S \cup UNION {{e[1], e[2]} : e \in {e \in E : {e[1], e[2]} \cap S # {}}}
RECURSIVE Closure(_, _)
Closure(S, E) == LET T == Grow(S, E) IN IF T = S THEN S ELSE Closure(T, E)
Connected(A, E) == \A a \in A : Closure({a}, E) = A
Bipartite(A, E) == \E S \in SUBSET A : \A e \in E : (e[1] \in S) # (e[2] \in S)
Rigid(A, E) == Cardinality(A) > 2 /\ Connected(A, E) /\ ~Bipartite(A, E)
Among(E, A) == {e \in E : e[1] \in A /\ e[2] \in A}
Across(E, snap) == {e \in E : snap[e[1]] # snap[e[2]]}
\* ---- the whole calibration --------------------------------------------------------------------------------------
Kinds == {"data", "model", "ants", "zero", "nan"}
MakeCal == /\ Mode = "cal" /\ pc = "start" /\ pc' = "made" /\ UNCHANGED out
  /\ \E snap \in {TLCEval([a \in Ants |-> IF a < 4 THEN a ELSE Draw(1..4)])}, use \in RE({TRUE, TRUE, FALSE}),
        F \in RE({{"e"}, {"n"}, Feeds, Feeds}), xpol \in RE(BOOLEAN), excl \in {DrawSet(Draw(0..1), Ants)}, cut \in {DrawSet(Draw(0..2), Pairs)} :
     \E bls \in {{p \in Pairs \ cut : p[1] \notin excl /\ p[2] \notin excl}} :
     \E solve \in {IF use THEN Across(bls, snap) ELSE bls} :
     \E dead \in {TLCEval([f \in F |-> TLCEval([t \in 1..NT |-> IF Rare(2) THEN DrawSet(1, Ants \ excl) ELSE {}])])},
        deadc \in {TLCEval([f \in F |-> TLCEval([t \in 1..NT |-> IF Rare(8) THEN 1..NF ELSE DrawSet(Draw(0..3), 1..NF)])])},
        kind \in {TLCEval([f \in F |-> TLCEval([t \in 1..NT |-> TLCEval([c \in 1..NF |-> Draw(Kinds)])])])},
        kinda \in {TLCEval([f \in F |-> TLCEval([t \in 1..NT |-> Draw({"data", "ants", "model"})])])},
        amp \in {TLCEval([f \in F |-> TLCEval([a \in Ants |-> TLCEval([x \in Cells |-> Draw(-1..1)])])])},
        phs \in {TLCEval([f \in F |-> TLCEval([a \in Ants |-> LET off == Draw(0..719)
                                                                sl == Draw(-40..40) IN TLCEval([x \in Cells |-> (off + 720 * 50 + sl * x[2] + Draw(-12..12)) % 720])])])},
        auto \in {TLCEval([f \in F |-> TLCEval([a \in Ants |-> TLCEval([t \in 1..NT |-> Draw(0..1)])])])},
        mod \in {TLCEval([p \in Pairs |-> TLCEval([x \in Cells |-> Draw(0..1)])])},
        fault \in {LET k == Draw(1..14) IN IF k < 5 THEN <<"snap", "auto", "uneven", "lonely">>[k] ELSE "none"}, victim \in RE(bls), when \in RE(1..NT) :
     in' = [snap |-> snap, use |-> use, feeds |-> F, xpol |-> xpol, excl |-> excl, bls |-> bls, solve |-> solve, dead |-> dead, deadc |-> deadc, kind |-> kind, kinda |-> kinda,
            amp |-> amp, phs |-> phs, auto |-> auto, mod |-> mod, fault |-> fault, victim |-> victim, when |-> when]
Live(f, t) == (Ants \ in.excl) \ in.dead[f][t]
Dark(f, t) == in.deadc[f][t] = 1..NF
\* the channels in which an antenna must be solved; everything else is not a number
Solved(f, a, x) == a \in Live(f, x[1]) /\ x[2] \notin in.deadc[f][x[1]]
Determined == /\ \A f \in in.feeds, t \in 1..NT : Rigid(Live(f, t), Among(in.solve, Live(f, t)))
              /\ \A a \in Ants \ in.excl : \E e \in in.solve : a \in {e[1], e[2]}
\* an uneven flag: one baseline misses one channel that the others have, between antennas that are in use
Uneven == {c \in 1..NF : \A f \in in.feeds : c \notin in.deadc[f][in.when]}
UnevenOK == /\ Uneven # {} /\ Cardinality(Among(in.solve, UNION {Live(f, in.when) : f \in in.feeds})) > 1
            /\ \A f \in in.feeds : {in.victim[1], in.victim[2]} \subseteq Live(f, in.when) /\ in.victim \in in.solve
Refused == CASE in.fault = "none" -> FALSE
             [] in.fault = "snap" -> in.use
             [] in.fault = "uneven" -> TRUE
             [] OTHER -> TRUE
Usable == /\ in.fault = "uneven" => UnevenOK
          /\ in.fault = "lonely" => in.use
          /\ in.fault = "snap" => in.use
Cal == /\ Mode = "cal" /\ pc = "made" /\ pc' = "done" /\ UNCHANGED in
  /\ out' = IF ~(Determined /\ Usable) THEN <<>>
     ELSE <<[mode |-> "cal", snap |-> in.snap, use |-> in.use, xpol |-> in.xpol, excl |-> in.excl, bls |-> in.bls, kind |-> in.kind, kinda |-> in.kinda, dead |-> in.dead, deadc |-> in.deadc,
       fault |-> in.fault, refused |-> Refused, victim |-> in.victim, when |-> in.when, chan |-> IF in.fault = "uneven" THEN CHOOSE c \in Uneven : TRUE ELSE 0,
       mod |-> {[p |-> p, m |-> [t \in 1..NT |-> [c \in 1..NF |-> in.mod[p][<<t, c>>]]]] : p \in in.bls},
       ants |-> UNION {{[a |-> a, f |-> f, amp |-> [t \in 1..NT |-> [c \in 1..NF |-> in.amp[f][a][<<t, c>>]]], phs |-> [t \in 1..NT |-> [c \in 1..NF |-> in.phs[f][a][<<t, c>>]]],
                         auto |-> in.auto[f][a], ok |-> [t \in 1..NT |-> [c \in 1..NF |-> Solved(f, a, <<t, c>>)]]] : a \in Ants} : f \in in.feeds}]>>
\* ---- antennas left out ------------------------------------------------------------------------------------------
GI == (-3..3) \X (-3..3)
Mul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Cnj(x) == <<x[1], -x[2]>>
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Sub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
Sc(k, x) == <<k * x[1], k * x[2]>>
N2(x) == x[1] * x[1] + x[2] * x[2]
Units == {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>, <<1, 1>>, <<1, -1>>, <<2, 0>>, <<0, -2>>}
\* a sample of a baseline: the ratio of datum to model, the model's amplitude, and how it is spoilt if it is
Bad == {"ok", "ok", "ok", "ok", "data", "model", "zero", "nanmodel", "nandata"}
RBad == LET k == Draw(1..12) IN CASE k < 8 -> "ok" [] k = 8 -> "data" [] k = 9 -> "model" [] k = 10 -> "zero" [] k = 11 -> "nanmodel" [] OTHER -> "nandata"
Nodes == Ants \X Feeds
Vis == {v \in Nodes \X Nodes : v[1][1] < v[2][1]}
MakeExp == /\ Mode = "exp" /\ pc = "start" /\ pc' = "made" /\ UNCHANGED out
  /\ \E snap \in {TLCEval([a \in Ants |-> Draw(1..3)])}, use \in RE(BOOLEAN), unmapped \in {DrawSet(Draw({0, 0, 1}), Ants)}, four \in RE(BOOLEAN),
        solved \in {DrawSet(Draw(2..(2 * NA - 1)), Nodes)} :
     \E bls \in {{v \in Vis : four \/ v[1][2] = v[2][2]} \ DrawSet(3, Vis)} :
     \E pick \in {IF Rare(3) THEN TLCEval({v \in bls : ~Rare(3)}) ELSE bls} :
     \E z \in {TLCEval([v \in bls |-> TLCEval([x \in Cells |-> Draw(GI)])])}, m \in {TLCEval([v \in bls |-> TLCEval([x \in Cells |-> Draw(1..2)])])},
        bad \in {TLCEval([v \in bls |-> LET lost == Rare(6) IN TLCEval([x \in Cells |-> IF lost THEN "data" ELSE RBad])])},
        g \in {TLCEval([n \in Nodes |-> TLCEval([x \in Cells |-> Draw(Units)])])}, nog \in {TLCEval([n \in Nodes |-> LET all == Rare(6) IN TLCEval({x \in Cells : all \/ Rare(8)})])},
        af \in {TLCEval([n \in Nodes |-> IF Rare(3) THEN TLCEval({x \in Cells : Rare(4)}) ELSE {}])}, au \in {TLCEval([n \in Nodes |-> Draw(1..2)])} :
     in' = [snap |-> snap, use |-> use, unmapped |-> unmapped, solved |-> solved, bls |-> bls, pick |-> pick, z |-> z, m |-> m, bad |-> bad, g |-> g, nog |-> nog, af |-> af, au |-> au]
\* the baselines of a left-out antenna n: those to solved antennas, not within a SNAP
Partners(n) == {v \in in.pick : /\ n \in {v[1], v[2]} /\ n \notin in.solved
                                /\ (IF v[1] = n THEN v[2] ELSE v[1]) \in in.solved
                                /\ (in.use => in.snap[v[1][1]] # in.snap[v[2][1]] /\ v[1][1] \notin in.unmapped /\ v[2][1] \notin in.unmapped)}
Other(v, n) == IF v[1] = n THEN v[2] ELSE v[1]
RatioFrom(v, n, x) == IF v[1] = n THEN in.z[v][x] ELSE Cnj(in.z[v][x])
GoodFor(v, n, x) == in.bad[v][x] = "ok" /\ x \notin in.af[v[1]] /\ x \notin in.af[v[2]] /\ x \notin in.nog[Other(v, n)]
\* weights: model power over the product of the autocorrelations, in units that make them integers
W(v, x) == in.m[v][x] * in.m[v][x] * (4 \div (in.au[v[1]] * in.au[v[2]]))
SumG(S, op(_)) == FoldSet(LAMBDA v, acc : Add(acc, op(v)), <<0, 0>>, S)
SumI(S, op(_)) == FoldSet(LAMBDA v, acc : acc + op(v), 0, S)
Sol(n, x) == LET B == {v \in Partners(n) : GoodFor(v, n, x)}
                 num == SumG(B, LAMBDA v : Sc(W(v, x), Mul(RatioFrom(v, n, x), in.g[Other(v, n)][x])))
                 den == SumI(B, LAMBDA v : W(v, x) * N2(in.g[Other(v, n)][x]))
                 chi == SumI(B, LAMBDA v : W(v, x) * N2(Sub(Sc(den, RatioFrom(v, n, x)), Mul(num, Cnj(in.g[Other(v, n)][x])))))
             IN [num |-> num, den |-> den, n |-> Cardinality(B), chi |-> chi]
\* the solution is a stationary point: no step of the gain lowers the weighted scatter
Stationary(n, x) == LET B == {v \in Partners(n) : GoodFor(v, n, x)}
                        s == Sol(n, x) IN
                    SumG(B, LAMBDA v : Sc(W(v, x), Mul(Sub(Sc(s.den, RatioFrom(v, n, x)), Mul(s.num, Cnj(in.g[Other(v, n)][x]))), in.g[Other(v, n)][x]))) = <<0, 0>>
Table(op(_)) == [t \in 1..NT |-> [c \in 1..NF |-> op(<<t, c>>)]]
Exp == /\ Mode = "exp" /\ pc = "made" /\ pc' = "done" /\ UNCHANGED in
  /\ out' = <<[mode |-> "exp", snap |-> in.snap, use |-> in.use, unmapped |-> in.unmapped, all |-> in.pick = in.bls,
       bls |-> {[v |-> v, z |-> Table(LAMBDA x : in.z[v][x]), m |-> Table(LAMBDA x : in.m[v][x]), bad |-> Table(LAMBDA x : in.bad[v][x]), use |-> v \in in.pick] : v \in in.bls},
       nodes |-> {[n |-> n, g |-> Table(LAMBDA x : in.g[n][x]), nog |-> Table(LAMBDA x : x \in in.nog[n]), af |-> Table(LAMBDA x : x \in in.af[n]), au |-> in.au[n],
                   solved |-> n \in in.solved, new |-> Partners(n) # {}, s |-> IF Partners(n) # {} THEN Table(LAMBDA x : Sol(n, x)) ELSE <<>>] : n \in Nodes}]>>
\* ---- amplitudes from autocorrelations ---------------------------------------------------------------------------
MakeAmp == /\ Mode = "amp" /\ pc = "start" /\ pc' = "made" /\ UNCHANGED out
  /\ \E A \in {TLCEval([n \in Nodes |-> TLCEval([x \in Cells |-> Draw(1..9)])])}, fl \in {TLCEval([n \in Nodes |-> LET k == Draw(1..4) IN TLCEval({x \in Cells : k = 1 \/ (k = 2 /\ Rare(2))})])},
        keyed \in {DrawSet(Draw(1..(2 * NA)), Nodes)}, useflags \in RE({TRUE, TRUE, FALSE}) :
     in' = [A |-> A, fl |-> IF useflags THEN fl ELSE [n \in Nodes |-> {}], keyed |-> keyed, useflags |-> useflags]
\* twice the median of the unflagged values
Median2(S, x) == LET s == SortSeq(SetToSeq({<<in.A[n][x], n>> : n \in S}), LAMBDA p, q : p[1] < q[1])
                     k == Len(s) IN
                 IF k = 0 THEN 0 ELSE IF k % 2 = 1 THEN 2 * s[(k + 1) \div 2][1] ELSE s[k \div 2][1] + s[k \div 2 + 1][1]
Amp == /\ Mode = "amp" /\ pc = "made" /\ pc' = "done" /\ UNCHANGED in
  /\ out' = <<[mode |-> "amp", useflags |-> in.useflags,
       nodes |-> {[n |-> n, A |-> Table(LAMBDA x : in.A[n][x]), fl |-> Table(LAMBDA x : x \in in.fl[n]), keyed |-> n \in in.keyed,
                   med2 |-> Table(LAMBDA x : Median2({m \in Nodes : m[2] = n[2] /\ ~(m \in in.keyed /\ x \in in.fl[m])}, x))] : n \in Nodes}]>>
\* ---- losses per SNAP --------------------------------------------------------------------------------------------
\* NF is the number of blocks here; the band splits after some block
Snaps == 1..3
MakeDec == /\ Mode = "dec" /\ pc = "start" /\ pc' = "made" /\ UNCHANGED out
  /\ \E split \in RE(2..(NF - 2)), loss \in {TLCEval([s \in Snaps |-> TLCEval([x \in Cells |-> IF Rare(3) THEN Draw({10, 15, 20, 30, 40}) ELSE 0])])},
        base \in {TLCEval([s \in Snaps |-> TLCEval([t \in 1..NT |-> IF Rare(4) THEN Draw({10, 25}) ELSE 0])])}, unseen \in {DrawSet(Draw(0..2), 1..NF)},
        quiet \in {TLCEval([s \in Snaps |-> TLCEval({t \in 1..NT : Rare(8)})])}, blind \in {TLCEval([s \in Snaps |-> IF Rare(4) THEN DrawSet(1, 1..NF) ELSE {}])} :
     in' = [split |-> split, loss |-> loss, base |-> base, unseen |-> unseen, quiet |-> quiet, blind |-> blind]
Band(b) == IF b <= in.split THEN 1..in.split ELSE (in.split + 1)..NF
Seen(s, b) == b \notin in.unseen /\ b \notin in.blind[s]
\* what remains of the signal, per cent of per cent
Left(s, x) == (100 - in.loss[s][x]) * (100 - in.base[s][x[1]])
\* relative to the least affected block of the band that was measured
Floor(s, x) == Max({Left(s, <<x[1], b>>) : b \in {b \in Band(x[2]) : Seen(s, b)}})
Dec == /\ Mode = "dec" /\ pc = "made" /\ pc' = "done" /\ UNCHANGED in
  /\ out' = <<[mode |-> "dec", split |-> in.split, loss |-> [s \in Snaps |-> Table(LAMBDA x : Left(s, x))], unseen |-> in.unseen, quiet |-> in.quiet, blind |-> in.blind,
       want |-> [s \in Snaps |-> Table(LAMBDA x : IF x[1] \in in.quiet[s] \/ ~Seen(s, x[2]) THEN <<0, 0>> ELSE <<Left(s, x), Floor(s, x)>>)]]>>
\* ---- what a user relies on --------------------------------------------------------------------------------------
Sound == /\ (pc = "done" /\ Mode = "exp") => \A n \in Nodes : Partners(n) # {} => (n \notin in.solved /\ \A x \in Cells : Stationary(n, x))
         /\ (pc = "done" /\ Mode = "cal" /\ out # <<>>) => \A a \in out[1].ants : a.a \in in.excl => \A t \in 1..NT, c \in 1..NF : ~a.ok[t][c]
         /\ (pc = "done" /\ Mode = "dec") => \A s \in Snaps, x \in Cells : Seen(s, x[2]) => Left(s, x) <= Floor(s, x)
Init == pc = "start" /\ in = <<>> /\ out = <<>>
Emit == /\ pc = "done" /\ pc' = "end" /\ UNCHANGED <<in, out>>
        /\ IF out = <<>> THEN TRUE ELSE CSVWrite("%1$s", <<ToJson(out[1])>>, IOEnv.OUT)
Next == MakeCal \/ Cal \/ MakeExp \/ Exp \/ MakeAmp \/ Amp \/ MakeDec \/ Dec \/ Emit
=============================================================================
