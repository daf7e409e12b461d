------------------------------- MODULE LstCal -------------------------------
(* C28.  Night-to-night calibration of an LST stack.  Each night sees a common model through gains with one amplitude and one
   tilt across the array per feed, and one phase between the feeds, per channel.  Samples may be flagged (with junk in them)
   or inpainted.  The specification says in which cells the parameters are determined, what the gains are there, and where
   they have to be left at one.  Two modes:
     cal   the calibration of a stack (and its autocorrelations), with or without smoothing over bands
     file  tables of parameters written to a file and turned into gains again, possibly for a range of LSTs only      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS NN, NF, Mode
VARIABLES pc, in, out
Draw(S) == RandomElement(IF pc = "" THEN {} ELSE S)
DrawSet(k, S) == RandomSubset(IF pc = "" THEN 0 ELSE k, S)
RE(S) == {Draw(S)}
Rare(n) == Draw(1..n) = 1
\* ---- arrays ------------------------------------------------------------------------------------------------------
Line == <<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<4, 0>>>>
Grid == <<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>>>
Hex  == <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<0, 2>>>>
Vec(P, b) == <<P[b[2]][1] - P[b[1]][1], P[b[2]][2] - P[b[1]][2]>>
Abs(x) == IF x < 0 THEN -x ELSE x
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
\* separations that leave no two tilts indistinguishable
Pins(P, B) == IF \A a \in DOMAIN P : P[a][2] = 0 THEN \E b \in B : Abs(Vec(P, b)[1]) = 1
              ELSE \E b, c \in B : Abs(Cross(Vec(P, b), Vec(P, c))) = 1
Pairs(P) == {b \in (DOMAIN P) \X (DOMAIN P) : b[1] < b[2]}
\* ---- samples left out: 0 stands for all --------------------------------------------------------------------------
Scopes == {"night", "chan", "pol", "bl", "blnight", "cell", "chanpol", "xpols", "most"}
Hits(e, n, b, f, p) ==
  CASE e.scope = "night" -> n = e.n
    [] e.scope = "chan" -> n = e.n /\ f = e.f
    [] e.scope = "pol" -> p = e.p
    [] e.scope = "bl" -> b = e.b
    [] e.scope = "blnight" -> b = e.b /\ n = e.n
    [] e.scope = "cell" -> n = e.n /\ b = e.b /\ f = e.f
    [] e.scope = "chanpol" -> n = e.n /\ f = e.f /\ p = e.p
    [] e.scope = "xpols" -> n = e.n /\ f = e.f /\ p[1] # p[2]
    [] OTHER -> e.cls = 2 /\ ~(n = 1 /\ b = e.b)
\* 0 measured, 1 flagged, 2 inpainted
Class(E, n, b, f, p) == LET H == {k \in DOMAIN E : Hits(E[k], n, b, f, p)} IN IF H = {} THEN 0 ELSE IF \E k \in H : E[k].cls = 1 THEN 1 ELSE 2
Feeds == {"e", "n"}
PolSets == {{<<"e", "e">>}, {<<"e", "e">>, <<"n", "n">>}, Feeds \X Feeds}
MakeCal == /\ Mode = "cal" /\ pc = "start" /\ pc' = "made" /\ UNCHANGED out
  /\ \E P \in RE({Line, Grid, Hex}), smooth \in {Rare(4)}, pols \in {LET k == Draw(1..4) IN IF k = 1 THEN {<<"e", "e">>} ELSE IF k = 2 THEN {<<"e", "e">>, <<"n", "n">>} ELSE Feeds \X Feeds} :
     \E ab \in {Pairs(P)} :
     \E B \in {DrawSet(IF Len(P) = 4 THEN 4 ELSE Draw({5, 6}), ab)} :
     \E flip \in {DrawSet(Draw(0..2), B)}, autos \in {LET S == {b[1] : b \in B} \cup {b[2] : b \in B} IN IF Rare(2) THEN {} ELSE DrawSet(Draw(1..2), S)},
        ref \in RE(Feeds), runA \in {~Rare(5)}, runP \in {~Rare(4)}, runX \in {~Rare(4)}, inp \in RE(BOOLEAN), useauto \in {~Rare(3)}, inplace \in {~Rare(4)} :
     \E E \in {TLCEval([k \in 1..Draw(0..3) |-> [scope |-> Draw(IF smooth THEN {"night", "chan", "bl", "blnight", "cell"} ELSE Scopes),
                  cls |-> Draw(1..2), n |-> Draw(1..NN), f |-> Draw(1..NF), b |-> Draw(B), p |-> Draw(pols)]])},
        par \in {TLCEval([n \in 1..NN |-> LET one == [q \in Feeds |-> [a |-> Draw(-3..3), x |-> Draw(-3..3), y |-> Draw(-3..3)]]
                                             d0 == Draw(0..15) IN
                           TLCEval([f \in 1..NF |-> TLCEval([d |-> IF smooth THEN d0 ELSE Draw(0..15),
                               g |-> TLCEval([q \in Feeds |-> IF smooth THEN [a |-> n + (IF q = "e" THEN 0 ELSE 2), x |-> IF runP THEN (n % 3) - 1 ELSE 0, y |-> IF runP THEN IF q = "e" THEN 1 ELSE -2 ELSE 0]
                                     ELSE [a |-> Draw(-3..3), x |-> IF runP THEN Draw(-3..3) ELSE 0, y |-> IF runP THEN Draw(-3..3) ELSE 0]])])])])},
        af \in {TLCEval([x \in autos \X (1..NN) \X (1..NF) |-> IF Rare(8) THEN 1 ELSE 0])}, split \in RE({0, 4}) :
     in' = [P |-> P, smooth |-> smooth, pols |-> pols, B |-> B, flip |-> flip, autos |-> autos, ref |-> ref, runA |-> runA, runP |-> runP, runX |-> runX, inp |-> inp,
            useauto |-> useauto, inplace |-> inplace, E |-> E, par |-> par, af |-> af, split |-> split]
Runs == in.runA \/ in.runP \/ in.runX
Cls(n, b, f, p) == Class(in.E, n, b, f, p)
Used(n, b, f, p) == LET c == Cls(n, b, f, p) IN c = 0 \/ (c = 2 /\ in.inp)
\* nothing was measured at all
Dark == \A n \in 1..NN, b \in in.B, f \in 1..NF, p \in in.pols : Cls(n, b, f, p) # 0
Q(q) == <<q, q>>
MyFeeds == {q \in Feeds : Q(q) \in in.pols}
Bls(n, f, p) == {b \in in.B : Used(n, b, f, p)}
\* parameters that are measured, and tilts that are measured but cannot be told apart
Seen(n, f, q) == ~Dark /\ Bls(n, f, Q(q)) # {}
Unsure(n, f, q) == Seen(n, f, q) /\ in.runP /\ ~Pins(in.P, Bls(n, f, Q(q)))
Level(n, f, q) == ~in.runP \/ (in.par[n][f].g[q].x = 0 /\ in.par[n][f].g[q].y = 0)
XSeen(n, f) == ~Dark /\ \E p \in in.pols : p[1] # p[2] /\ Bls(n, f, p) # {}
\* the phase between the feeds is only known where the tilts are gone
XSure(n, f) == XSeen(n, f) => \A q \in Feeds : (Seen(n, f, q) \/ Level(n, f, q)) /\ ~Unsure(n, f, q)
\* ---- the gains: in bands that are smoothed, a night that is measured anywhere is measured everywhere -----------------
Band(f) == IF ~in.smooth THEN {f} ELSE IF in.split = 0 THEN 1..NF ELSE IF f <= in.split THEN 1..in.split ELSE {f}
Banded(f) == in.smooth /\ (in.split = 0 \/ f <= in.split)
Live(n, f, q) == IF Banded(f) THEN \E h \in Band(f) : Seen(n, h, q) ELSE Seen(n, f, q)
XLive(n, f, q) == IF Banded(f) THEN XSeen(n, f) /\ Live(n, f, q) ELSE XSeen(n, f)
Gain(n, f, q) == LET g == in.par[n][f].g[q] IN
  [a |-> IF in.runA /\ Live(n, f, q) THEN g.a ELSE 0,
   x |-> IF in.runP /\ Live(n, f, q) THEN g.x ELSE 0,
   y |-> IF in.runP /\ Live(n, f, q) THEN g.y ELSE 0,
   d |-> IF in.runX /\ q # in.ref /\ XLive(n, f, q) THEN (IF q = "n" THEN in.par[n][f].d ELSE 16 - in.par[n][f].d) ELSE 0,
   sure |-> ~Unsure(n, f, q), xsure |-> XSure(n, f), seen |-> Seen(n, f, q)]
Smoothable == in.smooth => \A n \in 1..NN, q \in MyFeeds :
     /\ \A f \in 1..NF : ~Unsure(n, f, q) /\ (in.runX => XSure(n, f))
     /\ \A f \in {h \in 1..NF : Banded(h)} : LET S == {h \in Band(f) : Seen(n, h, q)} IN S = {} \/ (Cardinality(Band(f) \ S) <= 1 /\ {Min(Band(f)), Max(Band(f))} \subseteq S)
     /\ (in.runX => (\A f, h \in 1..NF : XSeen(n, f) = XSeen(n, h) /\ (XSeen(n, f) => Live(n, f, q))))
Usable == /\ Runs /\ Smoothable
          /\ \A n \in 1..NN, f \in 1..NF, q \in MyFeeds : Gain(n, f, q).sure \/ ~in.smooth
Flat(b) == IF b \in in.flip THEN <<b[2], b[1]>> ELSE b
Cal == /\ Mode = "cal" /\ pc = "made" /\ pc' = "done" /\ UNCHANGED in
  /\ out' = IF ~Usable THEN <<>> ELSE
     LET bl == SetToSeq(in.B)
         pl == SetToSeq(in.pols)
         au == SetToSeq(in.autos) IN
     <<[mode |-> "cal", pos |-> in.P, bls |-> [k \in DOMAIN bl |-> Flat(bl[k])], pols |-> pl, autos |-> au, ref |-> in.ref, runA |-> in.runA, runP |-> in.runP, runX |-> in.runX,
        inp |-> in.inp, useauto |-> in.useauto, inplace |-> in.inplace, smooth |-> in.smooth, split |-> in.split, dark |-> Dark,
        cls |-> [n \in 1..NN |-> [k \in DOMAIN bl |-> [f \in 1..NF |-> [m \in DOMAIN pl |-> Cls(n, bl[k], f, pl[m])]]]],
        af |-> [n \in 1..NN |-> [k \in DOMAIN au |-> [f \in 1..NF |-> in.af[<<au[k], n, f>>]]]],
        par |-> in.par, gain |-> [n \in 1..NN |-> [f \in 1..NF |-> [q \in MyFeeds |-> Gain(n, f, q)]]]]>>
\* ---- files -------------------------------------------------------------------------------------------------------
\* times are counted in bins of LST; a range that begins after it ends passes through zero
MakeFile == /\ Mode = "file" /\ pc = "start" /\ pc' = "made" /\ UNCHANGED out
  /\ \E nd \in RE(1..3), F \in RE({{"e"}, {"n"}, Feeds}), refp \in RE(Feeds), cross \in RE(BOOLEAN), start \in RE(0..23), sel \in {~Rare(3)}, lo \in RE(0..23), len \in RE(1..9),
        ask \in {LET k == Draw(1..5) IN IF k = 1 THEN "missing" ELSE "some"}, A \in {DrawSet(Draw(2..4), 0..9)} :
     \E pos \in {TLCEval([a \in A |-> TLCEval([k \in 1..nd |-> Draw(-3..3)])])},
        amp \in {TLCEval([q \in F |-> TLCEval([t \in 1..NN |-> TLCEval([f \in 1..NF |-> Draw(1..5)])])])},
        tilt \in {TLCEval([q \in F |-> TLCEval([t \in 1..NN |-> TLCEval([f \in 1..NF |-> TLCEval([k \in 1..nd |-> Draw(-8..8)])])])])},
        x \in {TLCEval([t \in 1..NN |-> TLCEval([f \in 1..NF |-> Draw(0..15)])])},
        fl \in {TLCEval([q \in F |-> LET z == Draw(1..3) IN TLCEval([t \in 1..NN |-> TLCEval([f \in 1..NF |-> z = 1 \/ (z = 2 /\ (t <= 2 \/ Draw(BOOLEAN)))])])])},
        want \in {DrawSet(Draw(1..Cardinality(A)), A)}, ap \in {{}} :
     in' = [nd |-> nd, F |-> F, ref |-> refp, cross |-> cross, start |-> start, sel |-> sel, lo |-> lo, len |-> len, ask |-> ask, pos |-> pos, amp |-> amp, tilt |-> tilt, x |-> x, fl |-> fl, want |-> want]
Lst(t) == (in.start + (t - 1)) % 24
Kept == {t \in 1..NN : ~in.sel \/ ((Lst(t) + 24 - in.lo) % 24) < in.len}
Dot(u, v) == FoldLeft(+, 0, [k \in DOMAIN u |-> u[k] * v[k]])
Phase(a, q, t, f) == ((16 * 100) - Dot(in.tilt[q][t][f], in.pos[a]) + (IF in.cross /\ q # in.ref THEN in.x[t][f] ELSE 0)) % 16
File == /\ Mode = "file" /\ pc = "made" /\ pc' = "done" /\ UNCHANGED in
  /\ out' = LET T == SetToSortSeq(Kept, <)
                refuse == Kept = {} \/ (in.ask = "missing" /\ in.F # Feeds) IN
     <<[mode |-> "file", nd |-> in.nd, feeds |-> in.F, ref |-> in.ref, cross |-> in.cross, start |-> in.start, sel |-> in.sel, lo |-> in.lo, len |-> in.len, ask |-> in.ask,
        ants |-> [k \in 1..Cardinality(DOMAIN in.pos) |-> LET a == SetToSortSeq(DOMAIN in.pos, <)[k] IN <<a, in.pos[a]>>],
        amp |-> in.amp, tilt |-> in.tilt, x |-> in.x, fl |-> in.fl, want |-> in.want, refuse |-> refuse, times |-> T,
        gains |-> IF refuse THEN {} ELSE {[a |-> a, q |-> q, amp |-> [k \in DOMAIN T |-> in.amp[q][T[k]]], ph |-> [k \in DOMAIN T |-> [f \in 1..NF |-> Phase(a, q, T[k], f)]],
                     flagged |-> \A k \in DOMAIN T, f \in 1..NF : in.fl[q][T[k]][f]] : a \in in.want, q \in in.F}]>>
\* ------------------------------------------------------------------------------------------------------------------
Init == pc = "start" /\ in = <<>> /\ out = <<>>
Emit == /\ pc = "done" /\ pc' = "end" /\ UNCHANGED <<in, out>>
        /\ (out # <<>> => CSVWrite("%1$s", <<ToJson(out[1])>>, IOEnv.OUT))
Next == MakeCal \/ Cal \/ MakeFile \/ File \/ Emit
\* a gain differs from one only where something was measured in its night (in its band); the reference feed has no phase of its own
Sound == (Mode = "cal" /\ pc = "made" /\ Usable) => \A n \in 1..NN, f \in 1..NF, q \in MyFeeds : LET g == Gain(n, f, q) IN
     /\ (g.a # 0 \/ g.x # 0 \/ g.y # 0) => \E h \in Band(f) : \E b \in in.B : Used(n, b, h, Q(q))
     /\ (q = in.ref => g.d = 0) /\ (Dark => g.a = 0 /\ g.x = 0 /\ g.y = 0 /\ g.d = 0)
=============================================================================
