----------------------------- MODULE RedSolution -----------------------------
(* C15.  Redundant-calibration solutions (hera_cal.redcal: RedSol, remove_degen, extending and expanding).
   Complex numbers as <<log amplitude, phase>> in whole steps, so that products are sums and everything is exact.
   A solution holds gains of some antennas and visibilities of some groups; the data are the products at the start.
   A degeneracy moves gains and visibilities together:  amplitude and phase per feed, slope across the array.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Steps, Px
VARIABLES pc, mode, pos, tg, tv, st, log
vars == <<pc, mode, pos, tg, tv, st, log>>
RE(S) == {RandomElement(S)}
Pick(S) == RandomElement(S)
Pix == 1..Px
Pols(m) == CASE m = "1pol" -> {<<"e", "e">>} [] m = "2pol" -> {<<"e", "e">>, <<"n", "n">>} [] OTHER -> {"e", "n"} \X {"e", "n"}
Feeds(m) == IF m = "1pol" THEN {"e"} ELSE {"e", "n"}
Ants == (DOMAIN pos) \X Feeds(mode)
Sub(a, b) == <<pos[b][1] - pos[a][1], pos[b][2] - pos[a][2]>>
Positive(v) == v[1] > 0 \/ (v[1] = 0 /\ v[2] > 0)
Bls == {<<a, b, p>> \in (DOMAIN pos) \X (DOMAIN pos) \X Pols(mode) : a # b /\ Positive(Sub(a, b))}
\* in 4pol_minV the two crossed products of a separation are one and the same
PolKey(p) == IF mode = "4pol_minV" /\ p[1] # p[2] THEN "x" ELSE p[1] \o p[2]
Grp(b) == <<Sub(b[1], b[2]), PolKey(b[3])>>
Groups == {Grp(b) : b \in Bls}
Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>
A1(b) == <<b[1], b[3][1]>>
A2(b) == <<b[2], b[3][2]>>
\* what a solution says about a baseline
Model(g, v, b, i) == <<g[A1(b)][i][1] + g[A2(b)][i][1] + v[Grp(b)][i][1], g[A1(b)][i][2] - g[A2(b)][i][2] + v[Grp(b)][i][2]>>
\* a degeneracy: per pixel and feed, amplitude k, phase c, slope <<x, y>>
Tied(m, f) == IF m = "4pol_minV" THEN "e" ELSE f
\* random numbers are drawn once, as explicit values
Draws == TLCEval([i \in Pix |-> TLCEval([f \in {"e", "n"} |-> <<Pick(-8..8), Pick(-200..200), <<Pick(-60..60), Pick(-60..60)>>>>])])
NewMove(r) == [i \in Pix |-> [f \in {"e", "n"} |-> [k |-> r[i][f][1], c |-> r[i][Tied(mode, f)][2], s |-> r[i][IF mode \in {"1pol", "2pol"} THEN f ELSE "e"][3]]]]
Still == [i \in Pix |-> [f \in {"e", "n"} |-> [k |-> 0, c |-> 0, s |-> <<0, 0>>]]]
Dot(s, p) == s[1] * p[1] + s[2] * p[2]
MovedG(m, a, i) == Plus(tg[a][i], <<m[i][a[2]].k, m[i][a[2]].c + Dot(m[i][a[2]].s, pos[a[1]])>>)
GFeeds(g) == IF g[2] = "x" THEN <<"e", "n">> ELSE CHOOSE p \in Pols(mode) : PolKey(p) = g[2]
MovedV(m, g, i) == LET p == GFeeds(g) IN Plus(tv[g][i], <<0 - (m[i][p[1]].k + m[i][p[2]].k), (m[i][p[2]].c - m[i][p[1]].c) + Dot(m[i][p[1]].s, g[1])>>)
\* ---- making a case -----------------------------------------------------------------------------------------------------
MakeArray ==
   /\ pc = "start" /\ pc' = "truth"
   /\ \E m \in RE({"1pol", "1pol", "2pol", "4pol", "4pol_minV"}), n \in RE(3..7), w \in RE(3..4) :
      \E nums \in {TLCEval(RandomSubset(n, 0..30))} : \E sites \in {TLCEval(SetToSeq(RandomSubset(n, (0..(w - 1)) \X (0..2))))} : \E order \in {TLCEval(SetToSeq(nums))} :
         mode' = m /\ pos' = [a \in nums |-> sites[CHOOSE i \in DOMAIN order : order[i] = a]]
   /\ UNCHANGED <<tg, tv, st, log>>
\* every feed's antennas are tied together by baselines of their own feed: an array with a group of two at least
MakeTruth ==
   /\ pc = "truth" /\ pc' = "begin"
   /\ tg' = TLCEval([a \in Ants |-> TLCEval([i \in Pix |-> <<Pick(-6..6), Pick(-250..250)>>])])
   /\ tv' = TLCEval([g \in Groups |-> TLCEval([i \in Pix |-> <<Pick(-6..6), Pick(-900..900)>>])])
   /\ UNCHANGED <<mode, pos, st, log>>
Begin ==
   /\ pc = "begin" /\ pc' = "walk" /\ log' = <<>> /\ UNCHANGED <<mode, pos, tg, tv>>
   /\ \E full \in RE(BOOLEAN), whole \in RE(BOOLEAN) : \E S \in {TLCEval(IF whole THEN DOMAIN pos ELSE RandomSubset(Pick(2..Cardinality(DOMAIN pos)), DOMAIN pos))} :
      LET solved == {a \in Ants : a[1] \in S}
          reach == {Grp(b) : b \in {b \in Bls : A1(b) \in solved /\ A2(b) \in solved}}
      IN \E known \in {TLCEval(IF full THEN RandomSubset(Pick(1..Cardinality(reach)), reach) ELSE reach)} :
         st' = [full |-> full, solved |-> solved, known |-> known, move |-> Still, canon |-> FALSE, start |-> [solved |-> solved, known |-> known]]
\* ---- steps ------------------------------------------------------------------------------------------------------------------
Hop(S, K) == S \cup UNION {{A1(b), A2(b)} : b \in {b \in Bls : Grp(b) \in K /\ ((A1(b) \in S) # (A2(b) \in S))}}
RECURSIVE Spread(_, _)
Spread(S, K) == LET T == Hop(S, K) IN IF T = S THEN S ELSE Spread(T, K)
Reach(S) == {Grp(b) : b \in {b \in Bls : A1(b) \in S /\ A2(b) \in S}}
Say(op, s) == [op |-> op, solved |-> s.solved, known |-> s.known, canon |-> s.canon,
               g |-> {<<a, [i \in Pix |-> MovedG(s.move, a, i)]>> : a \in s.solved}, v |-> {<<g, [i \in Pix |-> MovedV(s.move, g, i)]>> : g \in s.known}]
Step(op) == CASE op = "extend_vis" -> [st EXCEPT !.known = @ \cup Reach(st.solved)]
              [] op = "extend_gains" -> [st EXCEPT !.solved = Hop(@, st.known)]
              [] op = "expand_vis" -> [st EXCEPT !.known = @ \cup Reach(st.solved)]
              [] op = "expand_gains" -> [st EXCEPT !.solved = Spread(@, st.known)]
              [] op = "canon" -> [st EXCEPT !.canon = TRUE]
              [] op = "update_vis" -> st
Walk ==
   /\ pc = "walk" /\ Len(log) < Steps /\ UNCHANGED <<pc, mode, pos, tg, tv>>
   /\ \/ \E op \in RE({"extend_vis", "extend_gains", "canon", "update_vis", "expand_vis", "expand_gains"}) :
         \E s \in {TLCEval(Step(op))} : st' = s /\ log' = Append(log, Say(op, s))
      \/ \E r \in {Draws} : \E m \in {TLCEval(NewMove(r))} : \E s \in {[st EXCEPT !.move = m, !.canon = FALSE]} : st' = s /\ log' = Append(log, Say("fix", s))
Emit ==
   /\ pc = "walk" /\ Len(log) = Steps /\ pc' = "end" /\ UNCHANGED <<mode, pos, tg, tv, st, log>>
   /\ CSVWrite("%1$s", <<ToJson([mode |-> mode, pos |-> {<<a, pos[a]>> : a \in DOMAIN pos}, tg |-> {<<a, tg[a]>> : a \in DOMAIN tg}, tv |-> {<<g, tv[g]>> : g \in DOMAIN tv},
                                 full |-> st.full, start |-> st.start, log |-> log])>>, IOEnv.OUT)
Init == pc = "start" /\ mode = "" /\ pos = <<>> /\ tg = <<>> /\ tv = <<>> /\ st = <<>> /\ log = <<>>
Next == MakeArray \/ MakeTruth \/ (pc = "begin" /\ Begin) \/ Walk \/ Emit
\* ---- what a user relies on -----------------------------------------------------------------------------------------------------
\* whatever has been done, gains and visibilities together say the same about every baseline
Walking == pc \in {"walk", "end"}
ModelIsData == Walking => \A b \in Bls : (A1(b) \in st.solved /\ A2(b) \in st.solved /\ Grp(b) \in st.known) =>
                   \A i \in Pix : LET p == GFeeds(Grp(b))
                                  IN Model([a \in {A1(b), A2(b)} |-> [j \in Pix |-> MovedG(st.move, a, j)]], [g \in {Grp(b)} |-> [j \in Pix |-> MovedV(st.move, g, j)]], b, i) = Model(tg, tv, b, i)
OnlyMore == [][pc = "walk" /\ pc' = "walk" => st.solved \subseteq st'.solved /\ st.known \subseteq st'.known]_vars
=============================================================================
