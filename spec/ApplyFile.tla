------------------------------ MODULE ApplyFile ------------------------------
(* Calibrating a visibility file into a new file, in one go or a chunk of baselines at a time, with or without
   redundant averaging (C06).  Antennas sit at integer positions Pos, so two baselines are redundant iff their
   separations agree.  The specification computes the full result cell by cell; the partial run is a loop of
   Chunk steps that must end in the same output for every partition into chunks.                           *)
EXTENDS BlKeys, TLC, Randomization, Json, CSV, IOUtils
CONSTANTS Ants, NT, NF, PolSets
VARIABLES pc, file, cfg, todo, out
vars == <<pc, file, cfg, todo, out>>
RE(S) == {RandomElement(S)}
RS(S) == RandomSubset(RandomElement(0..Cardinality(S)), S)
RS1(S) == RandomSubset(RandomElement(1..Cardinality(S)), S)
Pos(a) == (a * 3) % 7          \* antenna numbers do not follow positions
Sep(p) == Pos(p[2]) - Pos(p[1])
RevP(p) == <<p[2], p[1]>>
OnePer(S) == {p \in S : ~(RevP(p) \in S /\ p[1] < p[2])}
T == 1..NT
F == 1..NF
Feed(p) == CASE p = "nn" -> <<"Jnn", "Jnn">> [] p = "ee" -> <<"Jee", "Jee">> [] p = "ne" -> <<"Jnn", "Jee">> [] OTHER -> <<"Jee", "Jnn">>
A1(k) == <<k[1], Feed(k[3])[1]>>
A2(k) == <<k[2], Feed(k[3])[2]>>
Keys == {<<p[1], p[2], q>> : p \in file.pairs, q \in file.pols}
\* ---- calibrated flags of one sample -----------------------------------------------------------------------
Missing(k) == A1(k) \notin cfg.gains \/ A2(k) \notin cfg.gains \/ (cfg.old /\ (A1(k) \notin cfg.oldgains \/ A2(k) \notin cfg.oldgains))
Yaml(k) == k[1] \in cfg.yaml \/ k[2] \in cfg.yaml
Loaded == IF cfg.spw = <<>> THEN cfg.calchans ELSE cfg.calchans \cap (cfg.spw[1]..cfg.spw[2])
Rank(f) == Cardinality({g \in Loaded : g < f})      \* 0-based position among the channels kept
Edge(f) == Rank(f) < cfg.low \/ Rank(f) >= Cardinality(Loaded) - cfg.high
CalFlag(k, t, f) == <<A1(k), t, f>> \in cfg.cflags \/ <<A2(k), t, f>> \in cfg.cflags
FlagOf(k, t, f) == <<Canon(k), t, f>> \in file.flags \/ Edge(f) \/ Missing(k) \/ Yaml(k) \/ CalFlag(k, t, f)
NS(k) == file.ns[Canon(k)]
\* ---- redundant averaging ------------------------------------------------------------------------------------
Same(p, q) == Sep(p) = Sep(q) \/ Sep(p) = -Sep(q)
GroupOf(p) == {q \in file.pairs : Same(p, q)}
Groups == {GroupOf(p) : p \in file.pairs}
AllFlagged(k) == \A t \in T, f \in Loaded : FlagOf(k, t, f)
Excluded(k) == IF cfg.mode = "data" THEN AllFlagged(k) ELSE Yaml(k)
Wt(k) == IF Excluded(k) THEN 0 ELSE NS(k)
\* a member in the orientation of separation s
OrientTo(p, s) == IF Sep(p) = s THEN p ELSE RevP(p)
Member(p, pol, s) == LET o == OrientTo(p, s) IN <<o[1], o[2], pol>>
RECURSIVE SumW(_)
SumW(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN NS(x) + SumW(S \ {x})
GroupOut(G, pol) ==
  LET s == Sep(CHOOSE p \in G : TRUE)
      M == {Member(p, pol, s) : p \in G}
  IN [pairs |-> G, pol |-> pol,
      wts |-> {[k |-> m, w |-> Wt(m)] : m \in M},
      ns |-> SumW({m \in M : Wt(m) # 0}),
      allf |-> [t \in T |-> [f \in F |-> IF f \in Loaded THEN \A m \in M : FlagOf(m, t, f) ELSE TRUE]],
      f |-> [t \in T |-> [f \in F |-> IF f \in Loaded THEN \A m \in M : Wt(m) = 0 \/ FlagOf(m, t, f) ELSE TRUE]]]
BlOut(k) == [k |-> k, ns |-> NS(k), f |-> [t \in T |-> [f \in F |-> IF f \in Loaded THEN FlagOf(k, t, f) ELSE TRUE]],
             new |-> <<A1(k) \in cfg.gains, A2(k) \in cfg.gains>>, old |-> <<cfg.old /\ A1(k) \in cfg.oldgains, cfg.old /\ A2(k) \in cfg.oldgains>>]
FullOut == IF cfg.avg THEN {GroupOut(G, pol) : G \in Groups, pol \in file.pols} ELSE {BlOut(k) : k \in Keys}
Start == /\ pc = "start" /\ pc' = "cfg"
         /\ \E ps \in {OnePer(RandomSubset(RandomElement(2..8), Ants \X Ants))}, pl \in RE(PolSets) :
            \E ks \in {{Canon(<<p[1], p[2], q>>) : p \in ps, q \in pl}} :
            \E dense \in RE(BOOLEAN) : \E fl0 \in {RandomSubset(RandomElement(0..(Cardinality(ks) * NT * NF)), ks \X T \X F)}, bad \in {RandomSubset(RandomElement(0..1), ks)} :
            \E ns \in {[k \in ks |-> RandomElement(0..3)]} :
               file' = [pairs |-> ps, pols |-> pl, flags |-> (IF dense THEN fl0 ELSE {}) \cup (bad \X T \X F), ns |-> ns]
         /\ UNCHANGED <<cfg, todo, out>>
AP == Ants \X {"Jnn", "Jee"}
Configure == /\ pc = "cfg" /\ pc' = "begin"
  /\ \E avg \in RE(BOOLEAN), old \in RE(BOOLEAN), conv \in RE({"divide", "multiply"}), low \in RE(0..1), high \in RE(0..1), mode \in RE({"data", "yaml"}) :
     \E miss \in RE({0, 0, 1}), calsub \in RE(1..3), useyaml \in RE(BOOLEAN), usespw \in RE(1..3) :
     \E ga \in {Ants \ RandomSubset(miss, Ants)}, oa \in {Ants \ RandomSubset(miss, Ants)} : \E gains \in {ga \X {"Jnn", "Jee"}}, og \in {oa \X {"Jnn", "Jee"}} :
     \E cc \in {IF calsub = 1 /\ NF > 1 THEN (RandomElement({1..NF-1, 2..NF})) ELSE F} :
     \E a \in RE(F) : \E b \in RE(a..NF) :
     \E cf \in {RandomSubset(RandomElement(0..4), AP \X T \X F)}, ym \in {IF useyaml THEN RandomSubset(RandomElement(0..1), Ants) ELSE {}} :
     LET spw == IF usespw = 1 /\ (a..b) \cap cc # {} THEN <<a, b>> ELSE <<>>
     IN cfg' = [avg |-> avg, old |-> old, conv |-> conv, low |-> low, high |-> high, mode |-> mode, gains |-> gains, oldgains |-> og,
                calchans |-> cc, spw |-> spw, cflags |-> cf, yaml |-> ym, useyaml |-> useyaml]
  /\ UNCHANGED <<file, out, todo>>
\* chunks: a partition of the keys (of whole groups when averaging)
Begin == /\ pc = "begin" /\ pc' = "run"
         /\ todo' = IF cfg.avg THEN {<<G, pol>> : G \in Groups, pol \in file.pols} ELSE Keys
         /\ out' = {} /\ UNCHANGED <<file, cfg>>
Chunk == /\ pc = "run" /\ todo # {}
         /\ \E c \in {RS1(todo)} :
              /\ todo' = todo \ c
              /\ out' = out \cup (IF cfg.avg THEN {GroupOut(x[1], x[2]) : x \in c} ELSE {BlOut(k) : k \in c})
         /\ UNCHANGED <<pc, file, cfg>>
Done == /\ pc = "run" /\ todo = {} /\ pc' = "end"
        /\ CSVWrite("%1$s", <<ToJson([pairs |-> file.pairs, pols |-> file.pols, flags |-> file.flags, ns |-> {[k |-> k, n |-> file.ns[k]] : k \in DOMAIN file.ns},
                                       cfg |-> cfg, loaded |-> Loaded, out |-> out])>>, IOEnv.OUT)
        /\ UNCHANGED <<file, cfg, todo, out>>
Init == pc = "start" /\ file = <<>> /\ cfg = <<>> /\ todo = {} /\ out = {}
Next == Start \/ Configure \/ Begin \/ Chunk \/ Done
-----------------------------------------------------------------------------
PartialEqualsFull == (pc = "end") => out = FullOut
NeverMore == (pc \in {"run", "end"}) => out \subseteq FullOut
InputFlagsKept == (pc = "end" /\ ~cfg.avg) => \A r \in out : \A t \in T, f \in Loaded : <<Canon(r.k), t, f>> \in file.flags => r.f[t][f]
=============================================================================
