---------------------------- MODULE WorkPartition ----------------------------
(* C11.  A night is a list of visibility files in time order, all holding the same baselines (stored in any order).
   Job j (one per file) takes a share of the baselines over the whole night; afterwards every time file is
   reassembled from the jobs' baseline files.  Files are also concatenated into chunks.
   A behaviour is a plan; the real code computes the division, and TLC judges what it returned (Verdict).        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Ants, MaxFiles, NF
VARIABLES pc, plan
vars == <<pc, plan>>
RE(S) == {RandomElement(S)}
RS(S) == RandomSubset(RandomElement(0..Cardinality(S)), S)
RevP(p) == <<p[2], p[1]>>
OnePer(S) == {p \in S : ~(RevP(p) \in S /\ p[1] < p[2])}
\* ---- the plan -----------------------------------------------------------------------------------------------
Make == /\ pc = "start" /\ pc' = "emit"
  /\ \E nf \in RE(1..MaxFiles), ps \in {OnePer(RandomSubset(RandomElement(1..9), Ants \X Ants))} :
     \E nts \in {[i \in 1..nf |-> RandomElement(1..3)]}, miss \in {RandomSubset(RandomElement({0, 0, 1}), 1..nf)} :
     \E cs \in RE(1..(nf + 1)), lo \in RE(1..NF), trim \in RE(BOOLEAN), pols \in RE({{"nn"}, {"nn", "ee"}, {"nn", "ee", "ne", "en"}}) :
     \E hi \in RE(lo..NF) : \E bp \in {IF RandomElement(1..3) = 1 THEN RandomSubset(RandomElement(1..Cardinality(pols)), pols) ELSE pols} :
     plan' = [nfiles |-> nf, pairs |-> ps, nts |-> nts, missing |-> miss, csize |-> cs, lo |-> IF trim THEN lo ELSE 1, hi |-> IF trim THEN hi ELSE NF, pols |-> pols, bpols |-> bp]
First(i) == 1 + FoldFunction(LAMBDA x, y : x + y, 0, [k \in 1..(i-1) |-> plan.nts[k]])
TimesOf(i) == [k \in 1..plan.nts[i] |-> First(i) + k - 1]
\* chunk starting at file i: the times of files i .. i+csize-1
ChunkTimes(i) == FoldSeq(LAMBDA x, y : y \o TimesOf(x), <<>>, [k \in 1..(Min({plan.csize, plan.nfiles - i + 1})) |-> i + k - 1])
Emit == /\ pc = "emit" /\ pc' = "end" /\ UNCHANGED plan
        /\ CSVWrite("%1$s", <<ToJson([plan |-> plan, times |-> [i \in 1..plan.nfiles |-> TimesOf(i)],
              chunks |-> [c \in 1..((plan.nfiles + plan.csize - 1) \div plan.csize) |-> [start |-> (c - 1) * plan.csize + 1, times |-> ChunkTimes((c - 1) * plan.csize + 1)]]])>>, IOEnv.OUT)
Init == pc = "start" /\ plan = <<>>
Next == Make \/ Emit
\* the plan's own chunks cover every time of the night exactly once, in order
ChunksCover == pc = "end" =>
   LET nc == (plan.nfiles + plan.csize - 1) \div plan.csize
       all == FoldSeq(LAMBDA x, y : y \o x, <<>>, [c \in 1..nc |-> ChunkTimes((c - 1) * plan.csize + 1)])
   IN all = [k \in 1..(First(plan.nfiles) + plan.nts[plan.nfiles] - 1) |-> k]
-----------------------------------------------------------------------------
\* ---- verdicts on recorded divisions ---------------------------------------------------------------------------
Rec == ndJsonDeserialize(IOEnv.TRACE)
ToSetS(s) == {s[i] : i \in 1..Len(s)}
Und(p) == IF p[1] <= p[2] THEN <<p[1], p[2]>> ELSE <<p[2], p[1]>>
Count(parts, x) == FoldSeq(LAMBDA q, acc : acc + Cardinality({i \in 1..Len(q) : Und(q[i]) = x}), 0, parts)
Jobs(r) ==   \* every baseline in exactly one share, nothing else, the shares near-even
   LET all == {Und(r.all[i]) : i \in 1..Len(r.all)} IN
   IF \E x \in all : Count(r.parts, x) = 0 THEN "unassigned"
   ELSE IF \E x \in all : Count(r.parts, x) > 1 THEN "assigned-twice"
   ELSE IF \E i \in 1..Len(r.parts) : \E k \in 1..Len(r.parts[i]) : Und(r.parts[i][k]) \notin all THEN "unknown-item"
   ELSE IF \E i \in 1..Len(r.parts) : Len(r.parts[i]) > Len(r.all) \div Len(r.parts) + 1 THEN "overloaded-job" ELSE "ok"
\* groups: sequences of ids; chunks: sequences of ids
Flat(gs) == FoldSeq(LAMBDA x, y : y \o x, <<>>, gs)
Groups(r) ==
   IF r.after # r.groups THEN "input-modified"
   ELSE IF Flat(r.chunks) # Flat(r.groups) THEN "not-every-member-once-in-order"
   ELSE IF \E g \in ToSetS(r.groups) : ~(\E c \in ToSetS(r.chunks) : ToSetS(g) \subseteq ToSetS(c)) THEN "group-split"
   ELSE IF \E c \in ToSetS(r.chunks) : Len(c) > r.max /\ c \notin ToSetS(r.groups) THEN "chunk-too-large"
   ELSE "ok"
Verdict(r) == IF r.kind = "jobs" THEN Jobs(r) ELSE Groups(r)
VARIABLE i
TInit == i = 0 /\ pc = "t" /\ plan = <<>>
TNext == /\ i < Len(Rec) /\ i' = i + 1 /\ UNCHANGED <<pc, plan>>
         /\ LET v == Verdict(Rec[i + 1]) IN v = "ok" \/ CSVWrite("%1$s", <<ToJson([k |-> "bad", i |-> i + 1, v |-> v])>>, IOEnv.OUT)
         /\ (i + 1 < Len(Rec) \/ CSVWrite("%1$s", <<ToJson([k |-> "done", n |-> i + 1])>>, IOEnv.OUT))
TInv == i \in 0..Len(Rec)
TAll == TLCGet("level") >= 0
GInit == Init /\ i = 0
GNext == Next /\ UNCHANGED i
=============================================================================
