---------------------------- MODULE RedcalDriver ----------------------------
(* C14.  The redundant-calibration driver (hera_cal.redcal: redcal_iteration, redcal_run).
   A run calibrates a file in pieces:  runs of integrations with the Sun down, at most Load of them at a time.  It is followed
   by another run without the antennas that look bad, until none do or the permitted number of runs is used up.
   An antenna is excluded in all its feeds ("number") or in one ("feed");  what is thrown out is always a number.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS MaxT, NAnt, MaxRuns
VARIABLES pc, cfg, todo, solved, count, ex, run, thrown, pieces
vars == <<pc, cfg, todo, solved, count, ex, run, thrown, pieces>>
RE(S) == {RandomElement(S)}
Feeds == {"e", "n"}
Ants == (0..(NAnt - 1)) \X Feeds
Excluded(X) == {a \in Ants : a[1] \in X.nums \/ a \in X.feeds}
\* the Sun: up at the start (it sets), at the end (it rises), in the middle (noon), at both ends (midnight), never or always
SunUp(shape, n, k, m) == CASE shape = "down" -> {} [] shape = "up" -> 1..n [] shape = "sets" -> 1..k [] shape = "rises" -> (k + 1)..n
                           [] shape = "noon" -> (k + 1)..m [] shape = "midnight" -> (1..k) \cup ((m + 1)..n)
Least(x, y) == IF x < y THEN x ELSE y
\* how far a run of integrations in S from i reaches
RECURSIVE RunTo(_, _)
RunTo(S, i) == IF i + 1 \in S THEN RunTo(S, i + 1) ELSE i
\* ---- configurations -------------------------------------------------------------------------------------------------------
Setup ==
   /\ pc = "start" /\ pc' = "run"
   /\ \E n \in RE(1..MaxT), shape \in RE({"down", "down", "sets", "rises", "noon", "midnight", "up"}), load \in RE(0..(MaxT + 1)), mode \in RE({"1pol", "2pol", "4pol"}) :
      \E ks \in {TLCEval(LET a == RandomElement(0..n) b == RandomElement(0..n) IN IF a < b THEN <<a, b>> ELSE <<b, a>>)} :
      \E low \in RE(0..2), high \in RE(0..2), cap \in RE(1..MaxRuns) :
      \E nums \in {TLCEval(RandomSubset(RandomElement(0..1), 0..(NAnt - 1)))}, fd \in {TLCEval(RandomSubset(RandomElement(0..1), Ants))} :
         /\ cfg' = [n |-> n, shape |-> shape, k |-> ks[1], m |-> ks[2], up |-> SunUp(shape, n, ks[1], ks[2]), load |-> load, mode |-> mode, low |-> low, high |-> high, cap |-> cap]
         /\ ex' = [nums |-> nums, feeds |-> IF mode = "4pol" THEN {} ELSE fd]
         /\ todo' = (1..n) \ SunUp(shape, n, ks[1], ks[2])
   /\ solved' = {} /\ count' = [t \in 1..MaxT |-> 0] /\ run' = 1 /\ thrown' = {} /\ pieces' = <<>>
\* ---- one run: piece by piece ------------------------------------------------------------------------------------------------
Piece ==
   /\ pc = "run" /\ todo # {}
   /\ LET i == CHOOSE t \in todo : \A u \in todo : t <= u
          size == IF cfg.load = 0 THEN cfg.n ELSE cfg.load
          j == Least(RunTo(todo, i), i + size - 1)
      IN /\ todo' = todo \ (i..j) /\ solved' = solved \cup (i..j) /\ pieces' = Append(pieces, <<i, j>>)
         /\ count' = [t \in 1..MaxT |-> count[t] + (IF t \in i..j THEN 1 ELSE 0)]
   /\ UNCHANGED <<pc, cfg, ex, run, thrown>>
\* ---- judging a run ------------------------------------------------------------------------------------------------------------
Finish == pc = "run" /\ todo = {} /\ pc' = "judge" /\ UNCHANGED <<cfg, todo, solved, count, ex, run, thrown, pieces>>
Judge ==
   /\ pc = "judge"
   /\ \E bad \in {TLCEval({a \in Ants : a \notin Excluded(ex) /\ RandomElement(0..29) = 0})} :
      IF bad = {} \/ run = cfg.cap \/ cfg.shape = "up" THEN pc' = "emit" /\ UNCHANGED <<cfg, todo, solved, count, ex, run, thrown, pieces>>
      ELSE /\ pc' = "run" /\ run' = run + 1 /\ ex' = [ex EXCEPT !.nums = @ \cup {a[1] : a \in bad}] /\ thrown' = thrown \cup {a[1] : a \in bad}
           /\ todo' = (1..cfg.n) \ cfg.up /\ solved' = {} /\ count' = [t \in 1..MaxT |-> 0] /\ pieces' = <<>> /\ UNCHANGED cfg
Emit ==
   /\ pc = "emit" /\ pc' = "end" /\ UNCHANGED <<cfg, todo, solved, count, ex, run, thrown, pieces>>
   /\ CSVWrite("%1$s", <<ToJson([cfg |-> cfg, solved |-> solved, ex |-> ex, thrown |-> thrown, run |-> run, pieces |-> pieces])>>, IOEnv.OUT)
Init == pc = "start" /\ cfg = <<>> /\ todo = {} /\ solved = {} /\ count = <<>> /\ ex = <<>> /\ run = 0 /\ thrown = {} /\ pieces = <<>>
Next == Setup \/ Piece \/ Finish \/ Judge \/ Emit
\* ---- what a user relies on -------------------------------------------------------------------------------------------------------
Live == pc \in {"run", "judge", "emit", "end"}
OnceEach == Live => \A t \in 1..MaxT : count[t] <= 1 /\ (count[t] = 1 => t <= cfg.n /\ t \notin cfg.up)
AllSolved == pc \in {"judge", "emit", "end"} => solved = (1..cfg.n) \ cfg.up
Bounded == Live => run <= cfg.cap /\ \A i \in DOMAIN pieces : pieces[i][2] - pieces[i][1] < (IF cfg.load = 0 THEN cfg.n ELSE cfg.load)
OnlyMore == [][Live => Excluded(ex) \subseteq Excluded(ex') /\ thrown \subseteq thrown' /\ run <= run']_vars
ThrownIsExcluded == Live => thrown \subseteq ex.nums
\* ---- recorded histories: [given, cap, runs: << <<excluded numbers>>, << numbers that look bad >> >>, result, thrown] -----------------
Set(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Replay(_, _, _)
Replay(rec, i, X) ==        \* what is excluded in the last run, and whether the history is one of the driver's
   IF i > Len(rec.runs) \/ Set(rec.runs[i].ex) # X THEN <<"run-ex", i, X>>
   ELSE IF rec.runs[i].bad = <<>> \/ i = rec.cap THEN (IF i # Len(rec.runs) THEN <<"went-on", i, X>> ELSE <<"ok", i, X>>)
   ELSE Replay(rec, i + 1, X \cup Set(rec.runs[i].bad))
Verdict(rec) == LET r == Replay(rec, 1, Set(rec.given)) IN
   CASE r[1] # "ok" -> r[1]
     [] Set(rec.result) # r[3] -> "result"
     [] Set(rec.thrown) # r[3] \ Set(rec.given) -> "thrown"
     [] OTHER -> "ok"
Recs == ndJsonDeserialize(IOEnv.TRACE)
TInit == /\ pc = "v" /\ run = 0 /\ cfg = <<>> /\ todo = {} /\ solved = {} /\ count = <<>> /\ ex = <<>> /\ thrown = {} /\ pieces = <<>>
TNext == /\ run < Len(Recs) /\ run' = run + 1 /\ UNCHANGED <<pc, cfg, todo, solved, count, ex, thrown, pieces>>
         /\ LET v == Verdict(Recs[run + 1]) IN v = "ok" \/ CSVWrite("%1$s", <<ToJson([k |-> "bad", i |-> run + 1, v |-> v])>>, IOEnv.OUT)
         /\ (run + 1 < Len(Recs) \/ CSVWrite("%1$s", <<ToJson([k |-> "done", n |-> run + 1])>>, IOEnv.OUT))
TInv == run \in 0..Len(Recs)
TAll == TLCGet("level") >= 0
=============================================================================
