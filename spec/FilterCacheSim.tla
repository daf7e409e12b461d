--------------------------- MODULE FilterCacheSim ---------------------------
(* Histories of complete, interrupted and observed writes for replay.  `floor` is what every reader must see, `ceil`
   adds what a write in progress may already have published.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils
CONSTANTS Keys, MaxPoint, Depth
VARIABLES stored, loose, hist, fin
vars == <<stored, loose, hist, fin>>
RE(S) == {RandomElement(S)}
RS(S) == RandomSubset(RandomElement(0..Cardinality(S)), S)
\* a full write of K minus skip, with reads at every low-level point in between
Write == \E K \in {RS(Keys)}, s \in {RS(Keys)} : \E observed \in RE(BOOLEAN) :
           /\ stored' = stored \cup (K \ s) /\ loose' = loose
           /\ hist' = Append(hist, [op |-> "write", keys |-> K, skip |-> s, obs |-> observed, before |-> stored, maybe |-> loose, after |-> stored \cup (K \ s), wrote |-> (K \ s) # {}])
\* the process dies at low-level point c: what it wrote may or may not be visible later, but all of it or nothing
CrashWrite == \E K \in {RS(Keys)} : \E c \in RE(0..MaxPoint) :
           /\ stored' = stored /\ loose' = loose \cup K
           /\ hist' = Append(hist, [op |-> "crash", keys |-> K, at |-> c, before |-> stored, maybe |-> loose \cup K])
Read == hist' = Append(hist, [op |-> "read", floor |-> stored, maybe |-> loose]) /\ UNCHANGED <<stored, loose>>
Junk == hist' = Append(hist, [op |-> "junk", name |-> RandomElement({"notes.txt", "x.filter_cache.tmp", "y.filter_cache_old", ".hidden"})]) /\ UNCHANGED <<stored, loose>>
Step == \E c \in RE(1..10) : IF c <= 4 THEN Write ELSE IF c <= 6 THEN CrashWrite ELSE IF c <= 9 THEN Read ELSE Junk
Done == ~fin /\ Len(hist) = Depth /\ fin' = TRUE /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ UNCHANGED <<stored, loose, hist>>
Init == stored = {} /\ loose = {} /\ hist = <<>> /\ fin = FALSE
Next == (Len(hist) < Depth /\ Step /\ UNCHANGED fin) \/ Done
Monotone == [][stored \subseteq stored']_vars
=============================================================================
