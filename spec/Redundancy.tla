----------------------------- MODULE Redundancy -----------------------------
(* Redundancy finding and filtering (C04).
   pos places antennas on an integer lattice.  Two baselines are redundant iff their separation vectors
   are equal; a group and its reversal are the same group.                                           *)
EXTENDS BlKeys, TLC, Randomization, Json, CSV, IOUtils
CONSTANTS Ants, GX, GY, GZ,     \* antenna numbers; lattice extent (GZ = 1: flat array)
          Depth, Sim
VARIABLES goal, pos, groups, pols, hist, fin
vars == <<goal, pos, groups, pols, hist, fin>>
R(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
RS(S, n) == IF S = {} THEN {} ELSE RandomSubset(RandomElement(1..(IF Cardinality(S) < n THEN Cardinality(S) ELSE n)), S)

Lattice == (0..GX-1) \X (0..GY-1) \X (0..GZ-1)
Vec(i, j) == <<pos[j][1] - pos[i][1], pos[j][2] - pos[i][2], pos[j][3] - pos[i][3]>>
VNeg(v) == <<-v[1], -v[2], -v[3]>>
Len2(i, j) == LET v == Vec(i, j) IN v[1]*v[1] + v[2]*v[2] + v[3]*v[3]
RevG(G) == {Rev(k) : k \in G}
RevP(a) == <<a[2], a[1]>>
Phys(G) == {Canon(k) : k \in G}
Here == DOMAIN pos
\* antenna pairs, one orientation each (the one with the lower antenna first), autos optional
Pairs(autos) == {a \in Here \X Here : a[1] < a[2] \/ (autos /\ a[1] = a[2])}
\* the positional group of a pair: all pairs, oriented alike
PosGroup(a, autos) == {b \in Here \X Here : (b \in Pairs(autos) \/ RevP(b) \in Pairs(autos)) /\ Vec(b[1], b[2]) = Vec(a[1], a[2])}
\* of the two orientations of a group, the one that begins with the lowest antenna (followed by the lower one)
Oriented(G) == LET m == CHOOSE a \in UNION {{b[1], b[2]} : b \in G} : \A c \in UNION {{b[1], b[2]} : b \in G} : a <= c
                   up == {b[2] : b \in {b \in G : b[1] = m}}
                   dn == {b[1] : b \in {b \in G : b[2] = m}}
               IN up # {} /\ (dn = {} \/ \A x \in up : \A y \in dn : x <= y)
PosGroups(autos) == {G \in {PosGroup(a, autos) : a \in Pairs(autos)} \cup {{RevP(b) : b \in PosGroup(a, autos)} : a \in Pairs(autos)} : Oriented(G)}
WithPol(GG, p) == {{<<b[1], b[2], p>> : b \in G} : G \in GG}
PolGroups(autos, ps, mode) ==
  IF mode # "4pol_minV" THEN UNION {WithPol(PosGroups(autos), p) : p \in ps}
  ELSE UNION {WithPol(PosGroups(autos), p) : p \in {q \in ps : q \in {"nn", "ee"}}}
       \cup (IF "ne" \in ps THEN {{<<b[1], b[2], "ne">> : b \in G} \cup {<<b[1], b[2], "en">> : b \in G} : G \in PosGroups(autos)} ELSE {})

Log(e, gs) == /\ groups' = gs /\ UNCHANGED fin
              /\ hist' = Append(hist, [e |-> e, groups |-> gs])

Init == goal = {} /\ pos = [a \in {} |-> <<0, 0, 0>>] /\ groups = {} /\ pols = {} /\ hist = <<>> /\ fin = FALSE

\* antennas are installed one at a time on free sites until the goal is reached
Goal == /\ hist = <<>> /\ goal = {}
        /\ \E A \in (IF Sim THEN {RandomSubset(RandomElement(2..Cardinality(Ants)), Ants)} ELSE {A \in SUBSET Ants : Cardinality(A) >= 2}) : goal' = A
        /\ UNCHANGED <<pos, groups, pols, hist, fin>>
Place == /\ hist = <<>> /\ goal \ Here # {}
         /\ \E s \in R(Lattice \ {pos[a] : a \in Here}) :
              pos' = LET a == CHOOSE a \in goal \ Here : TRUE IN [b \in Here \cup {a} |-> IF b = a THEN s ELSE pos[b]]
         /\ UNCHANGED <<groups, pols, hist, fin, goal>>
Find(autos, pm) ==
  /\ hist = <<>> /\ goal # {} /\ Here = goal
  /\ pols' = pm[1] /\ UNCHANGED <<pos, goal>>
  /\ Log([op |-> "find", pos |-> {<<a, pos[a]>> : a \in Here}, autos |-> autos, pols |-> pm[1], mode |-> pm[2]],
         PolGroups(autos, pm[1], pm[2]))
PM == {<<{"nn"}, "1pol">>, <<{"ee"}, "1pol">>, <<{"nn", "ee"}, "2pol">>, <<AllPols, "4pol">>, <<AllPols, "4pol_minV">>}

AntPol(k, n) == IF k[3] \in {"nn", "ee"} THEN IF k[3] = "nn" THEN "Jnn" ELSE "Jee"
                ELSE IF (k[3] = "ne") = (n = 1) THEN "Jnn" ELSE "Jee"
\* an antenna specification: <<number, "">> (all polarisations) or <<number, antpol>>
AntIn(S, k, n) == <<k[n], "">> \in S \/ <<k[n], AntPol(k, n)>> \in S
\* a baseline specification: <<i, j, "">> (all polarisations) or a key; either orientation
BlIn(S, k) == \E s \in S : IF s[3] = "" THEN (s[1] = k[1] /\ s[2] = k[2]) \/ (s[1] = k[2] /\ s[2] = k[1])
                           ELSE s = k \/ s = Rev(k)
GIn(S, G) == \E k \in G : BlIn(S, k)
\* c: the conditions that were requested ("-" = not requested)
Keep(c, G, k) ==
  /\ c.pols # {} => k[3] \in c.pols
  /\ k[3] \notin c.expols
  /\ c.ubls # {} => GIn(c.ubls, G)
  /\ ~GIn(c.exubls, G)
  /\ (c.bls # {} \/ c.nobls) => BlIn(c.bls, k)      \* nobls: an empty list of baselines is asked for
  /\ ~BlIn(c.exbls, k)
  /\ c.ants # {} => AntIn(c.ants, k, 1) /\ AntIn(c.ants, k, 2)
  /\ ~AntIn(c.exants, k, 1) /\ ~AntIn(c.exants, k, 2)
  /\ c.minl2 # 0 => 4 * Len2(k[1], k[2]) > c.minl2
  /\ c.maxl2 # 0 => 4 * Len2(k[1], k[2]) < c.maxl2
FilterG(c, C) == {H \in {{k \in G : Keep(c, G, k)} : G \in C} : H # {}}
None == [pols |-> {}, expols |-> {}, ubls |-> {}, exubls |-> {}, bls |-> {}, nobls |-> FALSE, exbls |-> {}, ants |-> {}, exants |-> {}, minl2 |-> 0, maxl2 |-> 0]
AllK == UNION {G \cup RevG(G) : G \in groups}
BlSpecs(n) == LET ks == RS(AllK, n) IN IF RandomElement({TRUE, FALSE}) THEN ks ELSE {<<k[1], k[2], "">> : k \in ks}
AntSpecs(n) == LET S == {<<a, "">> : a \in Here} \cup {<<a, p>> : a \in Here, p \in {"Jnn", "Jee"}} IN RandomSubset(RandomElement(1..(IF n < Cardinality(S) THEN n ELSE Cardinality(S))), S)
Pick(S) == CHOOSE x \in S : TRUE
\* one to three randomly chosen conditions
Cond == LET f == RandomSubset(RandomElement(1..3), {"pols", "expols", "ubls", "exubls", "bls", "exbls", "ants", "exants", "minl2", "maxl2"})
            gp == {k[3] : k \in UNION groups}
        IN [pols |-> IF "pols" \in f THEN RS(gp, 3) ELSE {},
            expols |-> IF "expols" \in f THEN RS(gp, 1) ELSE {},
            ubls |-> IF "ubls" \in f THEN BlSpecs(4) ELSE {},
            exubls |-> IF "exubls" \in f THEN BlSpecs(2) ELSE {},
            bls |-> IF "bls" \in f THEN BlSpecs(12) ELSE {},
            nobls |-> RandomElement(1..25) = 1,
            exbls |-> IF "exbls" \in f THEN BlSpecs(4) ELSE {},
            ants |-> IF "ants" \in f THEN AntSpecs(2 * Cardinality(Here)) ELSE {},
            exants |-> IF "exants" \in f THEN AntSpecs(2) ELSE {},
            minl2 |-> IF "minl2" \in f THEN RandomElement({3, 7, 10}) ELSE 0,
            maxl2 |-> IF "maxl2" \in f THEN RandomElement({7, 18, 30}) ELSE 0]
FilterA == /\ hist # <<>> /\ groups # {} /\ hist[1].e.mode # "4pol_minV" /\ hist[Len(hist)].e.op # "combine"
           /\ \E c \in {Cond} : Log([op |-> "filter", c |-> c], FilterG(c, groups))
           /\ UNCHANGED <<pos, pols, goal>>
\* combining two filtered views of the same groups
Combine(c1, c2, un) ==
  LET A == FilterG(c1, groups)
      B == FilterG(c2, groups)
      U == {H \in {{k \in G : BlIn(UNION A \cup UNION B, k)} : G \in groups} : H # {}}
      \* without the unfiltered groups only groups that share a baseline are known to be redundant
      M == {X \cup UNION {Y \in B : X \cap Y # {}} : X \in A} \cup {Y \in B : \A X \in A : X \cap Y = {}}
  IN /\ A # {} /\ B # {}
     /\ Log([op |-> "combine", c1 |-> c1, c2 |-> c2, un |-> un], IF un THEN U ELSE M)
     /\ UNCHANGED <<pos, pols, goal>>
CombineA == /\ hist # <<>> /\ groups # {} /\ hist[1].e.mode # "4pol_minV" /\ hist[Len(hist)].e.op # "combine"
            /\ \E c1 \in {Cond} : \E c2 \in {Cond} : \E un \in R(BOOLEAN) : Combine(c1, c2, un)
Done == /\ hist # <<>> /\ (Len(hist) = Depth \/ groups = {} \/ hist[1].e.mode = "4pol_minV" \/ hist[Len(hist)].e.op = "combine")
        /\ ~fin /\ fin' = TRUE
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ UNCHANGED <<pos, pols, groups, hist, goal>>
Next == \/ Goal \/ Place
        \/ (hist = <<>> /\ \E au \in R(BOOLEAN), pm \in R(PM) : Find(au, pm))     \* (a bare \E would be expanded once, at startup)
        \/ (Len(hist) < Depth /\ (FilterA \/ CombineA))
        \/ Done

-----------------------------------------------------------------------------
\* every baseline of the array is in exactly one group per polarisation (up to orientation)
Complete == (Len(hist) = 1 /\ hist[1].e.mode # "4pol_minV") =>
   \A i, j \in Here : \A p \in pols : (i # j) =>
       Cardinality({Phys(G) : G \in {G \in groups : Canon(<<i, j, p>>) \in Phys(G)}}) = 1
Sound == (Len(hist) >= 1 /\ hist[1].e.mode # "4pol_minV" /\ hist[Len(hist)].e.op # "combine") => \A G \in groups : \A k1, k2 \in G : Vec(k1[1], k1[2]) = Vec(k2[1], k2[2]) /\ k1[3] = k2[3]
Shrinks == [][(hist # <<>> /\ hist' # hist) => UNION {Phys(G) : G \in groups'} \subseteq UNION {Phys(G) : G \in groups}]_vars
=============================================================================
