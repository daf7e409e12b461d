------------------------------ MODULE ApplyCal ------------------------------
(* Applying and un-applying calibration solutions in memory (C05).
   Visibilities are kept symbolically: expo[k][s] is the net power with which the factor
   g_i conj(g_j) of solution s multiplies the original datum of baseline k.  flags[k] is the set of
   flagged samples <<t, f>>; junk[k] the samples whose value is not promised (the baseline was calibrated
   without one of its antennas, or with the average of gains some of which were flagged).
   nt[k] is the number of integrations of baseline k (baseline dependent averaging); a solution has ng
   integrations covering the same time span.                                                       *)
EXTENDS BlKeys, TLC, Randomization, Json, CSV, IOUtils
CONSTANTS Ants, NSol, NF, Nts, Ngs, Depth
VARIABLES keys, nt, sol, expo, flags, junk, hist, fin
vars == <<keys, nt, sol, expo, flags, junk, hist, fin>>
RE(S) == {RandomElement(S)}
RS(S) == IF S = {} THEN {} ELSE RandomSubset(RandomElement(0..Cardinality(S)), S)
RS1(S) == RandomSubset(RandomElement(1..Cardinality(S)), S)
F == 0..NF-1
AllKeys == {k \in Ants \X Ants \X AllPols : TRUE}
AntPols == Ants \X {"Jnn", "Jee"}
Feed(p, n) == IF p = "nn" THEN "Jnn" ELSE IF p = "ee" THEN "Jee" ELSE IF (p = "ne") = (n = 1) THEN "Jnn" ELSE "Jee"
A1(k) == <<k[1], Feed(k[3], 1)>>
A2(k) == <<k[2], Feed(k[3], 2)>>
Sols == 1..NSol
Samples(n) == (0..n-1) \X F

\* integrations of a solution with m integrations that correspond to integration t of n
Block(m, n, t) == IF m = 1 THEN {0} ELSE IF m <= n THEN {t \div (n \div m)} ELSE (t * (m \div n))..((t + 1) * (m \div n) - 1)

Sparse(S) == IF S = {} THEN {} ELSE RandomSubset(RandomElement(0..((Cardinality(S) + 2) \div 3)), S)
MkSol(m) == LET gk == IF RandomElement(1..3) = 1 THEN RS1(AntPols) ELSE AntPols
            IN [ng |-> m, gk |-> gk, fk |-> IF RandomElement(1..4) = 1 THEN RS1(AntPols) ELSE AntPols,
                fl |-> Sparse(AntPols \X Samples(m))]
\* one orientation per physical baseline
Oriented(S) == {k \in S : ~(Rev(k) \in S /\ Rev(k) # k /\ IsCanon(k))}
Start ==
  /\ hist = <<>>
  /\ \E ks \in {Oriented(RandomSubset(RandomElement(2..8), AllKeys))} :
     \E n \in {[k \in ks |-> RandomElement(Nts)]} :
     \E s1 \in {[s \in Sols |-> RandomElement(Ngs)]} :
     \E ss \in {TLCEval([s \in Sols |-> MkSol(s1[s])])} :
     \E fl \in {TLCEval([k \in ks |-> Sparse(Samples(n[k]))])} :
       /\ keys' = ks /\ nt' = n /\ sol' = ss /\ flags' = fl
       /\ expo' = [k \in ks |-> [s \in Sols |-> 0]] /\ junk' = [k \in ks |-> {}]
       /\ hist' = <<[e |-> [op |-> "init", keys |-> {[k |-> k, nt |-> n[k], fl |-> fl[k]] : k \in ks},
                            sol |-> [s \in Sols |-> [ss[s] EXCEPT !.fl = {[a |-> x[1], t |-> x[2][1], f |-> x[2][2]] : x \in ss[s].fl}]]],
                     st |-> <<>>]>>
       /\ UNCHANGED fin

Missing(s, k) == ~(A1(k) \in sol[s].gk /\ A2(k) \in sol[s].gk)
NoFlagKeys(s, k) == ~(A1(k) \in sol[s].fk /\ A2(k) \in sol[s].fk)
CalFlaggedN(s, k, n) == {x \in Samples(n) : \E b \in Block(sol[s].ng, n, x[1]) :
                        <<A1(k), <<b, x[2]>>>> \in sol[s].fl \/ <<A2(k), <<b, x[2]>>>> \in sol[s].fl}
CalFlagged(s, k) == CalFlaggedN(s, k, nt[k])
Down(s, k) == sol[s].ng > nt[k]
\* what any one antenna's flags do to an average of its gains
Mixed(s, k) == IF Down(s, k) THEN (IF NoFlagKeys(s, k) THEN Samples(nt[k]) ELSE CalFlagged(s, k)) ELSE {}
St(ex, fl, ju) == {[k |-> k, expo |-> ex[k], fl |-> fl[k], junk |-> ju[k]] : k \in keys}

\* new = solution to apply (flags from the same solution when cf), old = solution to take out (0: none)
Calibrate(new, old, conv, cf, wf, wgts) ==
  LET sgn == IF conv = "divide" THEN 1 ELSE -1
      ex == [k \in keys |-> [s \in Sols |-> expo[k][s] + (IF s = new THEN -sgn ELSE 0) + (IF s = old THEN sgn ELSE 0)]]
      ju == [k \in keys |-> IF Missing(new, k) \/ (old # 0 /\ Missing(old, k)) THEN Samples(nt[k])
                            ELSE junk[k] \cup (IF cf THEN Mixed(new, k) ELSE {})]
      fl == [k \in keys |-> IF ~wf THEN flags[k]
                            ELSE IF Missing(new, k) \/ (old # 0 /\ Missing(old, k)) \/ ~cf \/ NoFlagKeys(new, k) THEN Samples(nt[k])
                            ELSE flags[k] \cup CalFlagged(new, k)]
  IN /\ expo' = ex /\ junk' = ju /\ flags' = fl
     /\ hist' = Append(hist, [e |-> [op |-> "cal", new |-> new, old |-> old, conv |-> conv, cf |-> cf, wf |-> wf, wgts |-> wgts],
                              st |-> St(ex, fl, ju)])
     /\ UNCHANGED <<keys, nt, sol, fin>>
\* taking a solution out again: apply with the opposite convention
CalA == /\ hist # <<>> /\ Len(hist) <= Depth
        /\ \E new \in RE(Sols), old \in RE({0} \cup Sols), conv \in RE({"divide", "multiply"}), cf \in RE({TRUE, TRUE, TRUE, FALSE}),
              wf \in RE(BOOLEAN), wg \in RE(BOOLEAN) : Calibrate(new, old, conv, cf \/ ~wf \/ RandomElement(1..3) > 1, wf, wg)
UndoA == /\ Len(hist) > 1 /\ Len(hist) <= Depth /\ hist[Len(hist)].e.op = "cal" /\ hist[Len(hist)].e.old = 0
         /\ LET e == hist[Len(hist)].e IN Calibrate(e.new, 0, IF e.conv = "divide" THEN "multiply" ELSE "divide", TRUE, FALSE, FALSE)

\* re-calibrating redundant visibilities: every baseline of a group is multiplied by the average over the
\* group's unflagged members of old/new; groups are arbitrary here (redundancy is C04's subject)
Usable(new, old, k, x, n) == /\ ~Missing(new, k) /\ (old = 0 \/ ~Missing(old, k)) /\ x \notin CalFlaggedN(new, k, n)
                             /\ (old = 0 \/ x \notin CalFlaggedN(old, k, n))
RedRecal(new, old, conv, g, extra) ==
  LET grp == g \cup extra            \* extra members are in the group but not in the data
      n == nt[CHOOSE k \in g : TRUE]
      contrib == {[x |-> x, ks |-> {k \in grp : Usable(new, old, k, x, n)}] : x \in Samples(n)}
      none == {c.x : c \in {c \in contrib : c.ks = {}}}
      fl == [k \in keys |-> IF k \in g THEN flags[k] \cup none ELSE flags[k]]
  IN /\ flags' = fl /\ UNCHANGED <<keys, nt, sol, expo, junk, fin>>
     /\ hist' = Append(hist, [e |-> [op |-> "red", new |-> new, old |-> old, conv |-> conv, g |-> g, extra |-> extra, contrib |-> contrib],
                              st |-> St(expo, fl, junk)])
RedA == /\ hist # <<>> /\ Len(hist) <= Depth
        /\ \E new \in RE(Sols) : \E old \in RE({0} \cup (Sols \ {new})) :
           LET P == {g \in SUBSET keys : /\ g # {} /\ \A k \in g : k[3] = (CHOOSE q \in g : TRUE)[3] /\ nt[k] = sol[new].ng
                                         /\ \A k \in g : (k[1] = k[2]) = ((CHOOSE q \in g : TRUE)[1] = (CHOOSE q \in g : TRUE)[2])}
           IN /\ P # {} /\ (IF old = 0 THEN TRUE ELSE sol[old].ng = sol[new].ng /\ sol[new].gk \subseteq sol[old].gk /\ sol[new].gk \subseteq sol[old].fk)
              /\ sol[new].gk \subseteq sol[new].fk /\ (IF old = 0 THEN TRUE ELSE sol[old].gk \subseteq sol[old].fk)
              /\ \E g \in RE(P), conv \in RE({"divide", "multiply"}) :
                   LET p == (CHOOSE q \in g : TRUE)[3]
                       E == {k \in (AllKeys \ keys) : k[3] = p /\ k[1] # k[2] /\ Rev(k) \notin keys}
                   IN \E ex \in {IF E = {} \/ (\E q \in g : q[1] = q[2]) THEN {} ELSE Oriented(RandomSubset(1, E))} : RedRecal(new, old, conv, g, ex)

Done == /\ hist # <<>> /\ (Len(hist) = Depth + 1 \/ (Len(hist) > 1 /\ hist[Len(hist)].e.op = "red")) /\ ~fin /\ fin' = TRUE
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ UNCHANGED <<keys, nt, sol, expo, flags, junk, hist>>
Init == keys = {} /\ nt = <<>> /\ sol = <<>> /\ expo = <<>> /\ flags = <<>> /\ junk = <<>> /\ hist = <<>> /\ fin = FALSE
Live == hist # <<>> /\ hist[Len(hist)].e.op # "red"
Next == Start \/ (Live /\ (CalA \/ UndoA \/ RedA)) \/ Done
-----------------------------------------------------------------------------
TypeOK == \A k \in keys : flags[k] \subseteq Samples(nt[k]) /\ junk[k] \subseteq Samples(nt[k])
\* flags are never removed
NoUnflag == [][keys # {} => \A k \in keys : flags[k] \subseteq flags'[k]]_vars
\* un-applying what was just applied restores the data
Undoes == [][(Len(hist') > 2 /\ hist' # hist /\ hist'[Len(hist')].e.op = "cal" /\ hist'[Len(hist') - 1].e.op = "cal"
              /\ hist'[Len(hist')].e.new = hist'[Len(hist') - 1].e.new /\ hist'[Len(hist')].e.old = 0 /\ hist'[Len(hist') - 1].e.old = 0
              /\ hist'[Len(hist')].e.conv # hist'[Len(hist') - 1].e.conv /\ Len(hist') = 3) => \A k \in keys : \A s \in Sols : expo'[k][s] = 0]_vars
=============================================================================
