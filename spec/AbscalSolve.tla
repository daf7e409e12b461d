---------------------------- MODULE AbscalSolve ----------------------------
(* C26.  Absolute calibration.  An array on an integer grid observes model visibilities through gains that have only the
   freedom a given solver may assume: one amplitude per feed, a tilt of the phase across the array, per-antenna amplitudes or
   phases, delays.  Amplitudes are powers of two, phases are counted in 720ths of a turn, so every expected ratio of datum to
   model is exact.  Some data are unusable: given no weight and filled with junk, or not numbers at all, or opposite a vanishing
   model.  What remains determines the solution (the usable baselines of each feed connect the antennas), so the specification
   says what the gains must be, whatever the unusable data hold and whatever the weights are.  Where data disagree, the
   weighted least-squares answer is a rational number that the specification computes.                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS NA, NT, NF, Regular     \* Regular: the antennas fill a 3 by 2 grid, so that one tilt is the only freedom of a redundant solution
VARIABLES pc, in, out
RE(S) == {RandomElement(S)}
Ants == 1..NA
Pix == (1..NT) \X (1..NF)
Dims == 1..3
Feeds == {"e", "n"}
Rare(n) == RandomElement(1..n) = 1
PolSets == {{<<"e", "e">>}, {<<"n", "n">>}, {<<"e", "e">>, <<"n", "n">>}, {<<"e", "e">>, <<"n", "n">>, <<"e", "n">>, <<"n", "e">>}, {<<"e", "e">>, <<"n", "n">>, <<"n", "e">>}}
\* ---- what is determined -------------------------------------------------------------------------------------
Grow(S, E) == S \cup {a \in Ants : \E e \in E : {e[1], e[2]} \cap S # {} /\ a \in {e[1], e[2]}}
RECURSIVE Closure(_, _)
Closure(S, E) == LET T == Grow(S, E) IN IF T = S THEN S ELSE Closure(T, E)
Connected(E) == Closure({1}, E) = Ants
Bipartite(E) == \E S \in SUBSET Ants : \A e \in E : (e[1] \in S) # (e[2] \in S)
Rigid(E) == Connected(E) /\ ~Bipartite(E)
RECURSIVE Spoil(_, _, _)
\* up to n of the baselines E made unusable such that the others still determine everything
Spoil(E, n, B) == IF n = 0 \/ B = {} THEN {} ELSE LET e == RandomElement(B) IN
                  IF Rigid(E \ {e}) THEN {e} \cup Spoil(E \ {e}, n - 1, B \ {e}) ELSE Spoil(E, n - 1, B \ {e})
Place == /\ pc = "start" /\ pc' = "placed" /\ UNCHANGED out
  /\ \E nd \in RE(IF Regular THEN {FALSE} ELSE BOOLEAN), pols \in RE(IF Regular THEN {P \in PolSets : \A p \in P : p[1] = p[2]} ELSE PolSets), fourpol \in {Rare(4)} :
     \* antennas on distinct grid points, not all on a line; a third dimension that is one of the solver's only if nd
     \E rest \in {RandomSubset(NA - 3, (IF Regular THEN {<<2, 0>>, <<1, 1>>, <<2, 1>>} ELSE ((0..3) \X (0..2)) \ {<<0, 0>>, <<1, 0>>, <<0, 1>>}))}, up \in RE(4..NA), off \in RE(0..2) :
     \E P \in {<<<<0, 0>>, <<1, 0>>, <<0, 1>>>> \o SetToSeq(rest)} :
     \E shift \in RE(0..(NA - 1)) :
     \E pos \in {TLCEval([a \in Ants |-> LET k == ((a + shift - 1) % NA) + 1 IN <<P[k][1] + off, P[k][2], IF nd THEN (IF k = up THEN 1 ELSE 0) ELSE RandomElement(0..3)>>])} :
     \* baselines, either way round
     \E U \in {{p \in Ants \X Ants : p[1] < p[2]}} :
     \E cut \in {TLCEval(Spoil(U, RandomElement(0..4), U))} :
     \E bls \in {TLCEval({IF RandomElement(BOOLEAN) THEN p ELSE <<p[2], p[1]>> : p \in U \ cut})} :
     \* cross-polarized visibilities need not be complete
     \E keys \in {TLCEval({q \in bls \X pols : q[2][1] = q[2][2] \/ ~Rare(4)})} :
     \E w \in {TLCEval([q \in keys |-> TLCEval([x \in Pix |-> RandomElement(1..4)])])} :
     \E bad \in {TLCEval([x \in Pix |-> TLCEval([p \in pols |-> IF p[1] = p[2] THEN Spoil(bls, RandomElement(0..3), bls) ELSE {e \in bls : Rare(4)}])])} :
     \E cls \in {TLCEval([q \in keys |-> TLCEval([x \in Pix |-> IF q[1] \in bad[x][q[2]] THEN RandomElement(1..5) ELSE 0])])} :
     in' = [nd |-> nd, pols |-> pols, fourpol |-> fourpol, pos |-> pos, keys |-> keys, w |-> w, cls |-> cls, ref |-> RandomElement(Ants), some |-> Rare(2),
            extra |-> RandomElement({0, 1, 2}), guest |-> RandomElement({"none", "on", "off"}), wind |-> <<RandomElement(-359..360), RandomElement(-359..360)>>]
\* classes: 0 usable; 1 no weight, junk; 2 datum not a number; 3 datum infinite; 4 model zero; 5 no weight and not a number
UsedFeeds == UNION {{q[2][1], q[2][2]} : q \in in.keys}
Rel(a, d) == in.pos[a][d] - in.pos[in.ref][d]
SolveDims == IF in.nd THEN 1..3 ELSE 1..2
Truth == /\ pc = "placed" /\ pc' = "true"
  /\ \E F \in {UsedFeeds} :
     \E eta \in {TLCEval([f \in F |-> TLCEval([x \in Pix |-> RandomElement(-2..2)])])},
        common \in {TLCEval([d \in Dims |-> TLCEval([x \in Pix |-> RandomElement(-10..10)])])},
        cpsl \in {TLCEval([d \in Dims |-> TLCEval([t \in 1..NT |-> RandomElement(-10..10)])])},
        cdsl \in {TLCEval([d \in Dims |-> TLCEval([t \in 1..NT |-> RandomElement(-3..3)])])} :
     \E tilt \in {TLCEval([f \in F |-> IF in.fourpol THEN common ELSE TLCEval([d \in Dims |-> TLCEval([x \in Pix |-> RandomElement(-10..10)])])])},
        psi \in {TLCEval([f \in F |-> TLCEval([x \in Pix |-> RandomElement(-30..30)])])},
        aeta \in {TLCEval([a \in Ants \X F |-> TLCEval([x \in Pix |-> RandomElement(-2..2)])])},
        aphi \in {TLCEval([a \in Ants \X F |-> TLCEval([x \in Pix |-> IF a[1] = in.ref THEN 0 ELSE RandomElement(-80..80)])])},
        \* delays and slopes that do not depend on the channel, one per integration
        adly \in {TLCEval([a \in Ants \X F |-> TLCEval([t \in 1..NT |-> IF a[1] = in.ref THEN 0 ELSE RandomElement(-8..8)])])},
        aoff \in {TLCEval([a \in Ants \X F |-> TLCEval([t \in 1..NT |-> IF a[1] = in.ref THEN 0 ELSE RandomElement(-80..80)])])},
        dsl \in {TLCEval([f \in F |-> IF in.fourpol THEN cdsl ELSE TLCEval([d \in Dims |-> TLCEval([t \in 1..NT |-> RandomElement(-3..3)])])])},
        psl \in {TLCEval([f \in F |-> IF in.fourpol THEN cpsl ELSE TLCEval([d \in Dims |-> TLCEval([t \in 1..NT |-> RandomElement(-10..10)])])])},
        dead \in {TLCEval([t \in 1..NT |-> TLCEval([p \in in.pols |-> IF p[1] = p[2] THEN Spoil({q[1] : q \in in.keys}, RandomElement(0..2), {q[1] : q \in in.keys}) ELSE {}])])},
        \* disagreeing data: log ratios, and Gaussian integers for the linear and the cross-polarization solvers
        noisy \in {TLCEval([q \in in.keys |-> TLCEval([x \in Pix |-> [y |-> RandomElement(-3..3), d |-> <<RandomElement(-3..3), RandomElement(-3..3)>>, m |-> <<RandomElement(-3..3), RandomElement(1..3)>>]])])} :
     out' = [eta |-> eta, tilt |-> tilt, psi |-> psi, aeta |-> aeta, aphi |-> aphi, adly |-> adly, aoff |-> aoff, dsl |-> dsl, psl |-> psl, dead |-> dead, noisy |-> noisy]
  /\ UNCHANGED in
\* ---- gains and what they do to a baseline --------------------------------------------------------------------
TiltOf(a, f, x) == FoldSet(LAMBDA d, s : s + out.tilt[f][d][x] * Rel(a, d), 0, SolveDims)
SlopeOf(sl, a, f, t, D) == FoldSet(LAMBDA d, s : s + sl[f][d][t] * Rel(a, d), 0, D)
A1(q) == q[1][1]
A2(q) == q[1][2]
F1(q) == q[2][1]
F2(q) == q[2][2]
Ratio(q, x) == [abs |-> out.eta[F1(q)][x] + out.eta[F2(q)][x],
                tt |-> TiltOf(A1(q), F1(q), x) - TiltOf(A2(q), F2(q), x),
                ttpsi |-> TiltOf(A1(q), F1(q), x) - TiltOf(A2(q), F2(q), x) + out.psi[F1(q)][x] - out.psi[F2(q)][x],
                amp |-> out.aeta[<<A1(q), F1(q)>>][x] + out.aeta[<<A2(q), F2(q)>>][x],
                phs |-> out.aphi[<<A1(q), F1(q)>>][x] - out.aphi[<<A2(q), F2(q)>>][x]]
RatioT(q, t) == [dly |-> out.adly[<<A1(q), F1(q)>>][t] - out.adly[<<A2(q), F2(q)>>][t],
                 off |-> out.aoff[<<A1(q), F1(q)>>][t] - out.aoff[<<A2(q), F2(q)>>][t],
                 dsl |-> SlopeOf(out.dsl, A1(q), F1(q), t, SolveDims) - SlopeOf(out.dsl, A2(q), F2(q), t, SolveDims),
                 psl |-> SlopeOf(out.psl, A1(q), F1(q), t, SolveDims) - SlopeOf(out.psl, A2(q), F2(q), t, SolveDims),
                 dead |-> q[1] \in out.dead[t][q[2]]]
\* ---- least squares where the data disagree -------------------------------------------------------------------
KeysOf(f) == {q \in in.keys : q[2] = <<f, f>>}
Usable(q, x) == in.cls[q][x] = 0
SumK(K, Op(_)) == FoldSet(LAMBDA q, s : s + Op(q), 0, K)
Wt(q, x) == IF Usable(q, x) THEN in.w[q][x] ELSE 0
N(q, x) == out.noisy[q][x]
\* log: eta = sum w y / 2 sum w ; linear: A^2 = |sum w Re(d m*)| / sum w |m|^2
LS(f, x) == [num |-> SumK(KeysOf(f), LAMBDA q : Wt(q, x) * N(q, x).y), den |-> 2 * SumK(KeysOf(f), LAMBDA q : Wt(q, x)),
             lnum |-> SumK(KeysOf(f), LAMBDA q : Wt(q, x) * (N(q, x).d[1] * N(q, x).m[1] + N(q, x).d[2] * N(q, x).m[2])),
             lden |-> SumK(KeysOf(f), LAMBDA q : Wt(q, x) * (N(q, x).m[1] * N(q, x).m[1] + N(q, x).m[2] * N(q, x).m[2]))]
\* the phase between the feeds: sum over cross-polarized visibilities of w d m*, conjugated where the reference feed comes first
CrossKeys == {q \in in.keys : F1(q) # F2(q)}
MulC(a, b) == <<a[1] * b[1] + a[2] * b[2], a[2] * b[1] - a[1] * b[2]>>        \* a times conj b
Cross(refpol, x) == FoldSet(LAMBDA q, s : LET z == MulC(N(q, x).d, N(q, x).m)  v == Wt(q, x) IN
                              <<s[1] + v * z[1], s[2] + v * (IF F1(q) = refpol THEN -z[2] ELSE z[2])>>, <<0, 0>>, CrossKeys)
Grid(Op(_)) == [t \in 1..NT |-> [f \in 1..NF |-> Op(<<t, f>>)]]
Result == [keys |-> {[q |-> q, w |-> Grid(LAMBDA x : in.w[q][x]), cls |-> Grid(LAMBDA x : in.cls[q][x]), r |-> Grid(LAMBDA x : Ratio(q, x)), rt |-> [t \in 1..NT |-> RatioT(q, t)],
                      noisy |-> Grid(LAMBDA x : N(q, x))] : q \in in.keys},
           feeds |-> {[f |-> f, eta |-> Grid(LAMBDA x : out.eta[f][x]), psi |-> Grid(LAMBDA x : out.psi[f][x]), tilt |-> [d \in Dims |-> Grid(LAMBDA x : out.tilt[f][d][x])],
                       dsl |-> out.dsl[f], psl |-> out.psl[f], ls |-> Grid(LAMBDA x : LS(f, x))] : f \in UsedFeeds},
           cross |-> IF Cardinality(UsedFeeds) = 2 THEN [e |-> Grid(LAMBDA x : Cross("e", x)), n |-> Grid(LAMBDA x : Cross("n", x))] ELSE <<>>,
           ants |-> {[a |-> a, f |-> f, eta |-> Grid(LAMBDA x : out.aeta[<<a, f>>][x]), phi |-> Grid(LAMBDA x : out.aphi[<<a, f>>][x]),
                      tt |-> Grid(LAMBDA x : TiltOf(a, f, x)), dly |-> out.adly[<<a, f>>], off |-> out.aoff[<<a, f>>],
                      dsl |-> [t \in 1..NT |-> SlopeOf(out.dsl, a, f, t, SolveDims)], psl |-> [t \in 1..NT |-> SlopeOf(out.psl, a, f, t, SolveDims)]] : a \in Ants, f \in UsedFeeds},
           pos |-> in.pos, nd |-> in.nd, ref |-> in.ref, fourpol |-> in.fourpol, some |-> in.some, extra |-> in.extra, guest |-> in.guest,
           \* a tilt of any size, for the solver that looks for the global optimum
           wind |-> {[q |-> q, ph |-> (in.wind[1] * (in.pos[A1(q)][1] - in.pos[A2(q)][1]) + in.wind[2] * (in.pos[A1(q)][2] - in.pos[A2(q)][2])) % 720] : q \in in.keys}]
Emit == /\ pc = "true" /\ pc' = "end" /\ UNCHANGED <<in, out>> /\ CSVWrite("%1$s", <<ToJson(Result)>>, IOEnv.OUT)
Init == pc = "start" /\ in = <<>> /\ out = <<>>
Next == Place \/ Truth \/ Emit
\* ---- what is promised follows from the gains -----------------------------------------------------------------
\* every reading of a baseline backwards turns the ratio round; ratios around a triangle of one feed cancel; the reference antenna has no phase;
\* usable data of each feed connect the array
Sound == pc = "end" =>
   /\ \A q \in in.keys, x \in Pix : LET r == Ratio(q, x)  b == Ratio(<<<<q[1][2], q[1][1]>>, <<q[2][2], q[2][1]>>>>, x) IN
        r.abs = b.abs /\ r.amp = b.amp /\ r.tt = -b.tt /\ r.phs = -b.phs /\ r.ttpsi = -b.ttpsi
   /\ \A f \in UsedFeeds, x \in Pix : TiltOf(in.ref, f, x) = 0
   /\ \A f \in UsedFeeds, x \in Pix : Rigid({q[1] : q \in {k \in KeysOf(f) : Usable(k, x)}}) /\ LS(f, x).den > 0 /\ LS(f, x).lden > 0
   /\ \A p, q \in in.keys, x \in Pix : (F1(p) = F2(p) /\ p[2] = q[2] /\ ~in.nd /\ \A d \in 1..2 : in.pos[A1(p)][d] - in.pos[A2(p)][d] = in.pos[A1(q)][d] - in.pos[A2(q)][d]) => Ratio(p, x).tt = Ratio(q, x).tt
=============================================================================
