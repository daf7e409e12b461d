-------------------------------- MODULE LstPlan --------------------------------
(* C19.  The stacking plan.  Sidereal time is a circle of N bins of TPB ticks; a grid is W consecutive bins from bin b0
   on (it may cross the 24-hour wrap or cover the full day), cut into output files of K bins (the last may be shorter).
   A night is a sequence of files, each of n integrations `step` ticks apart; an integration lies half a tick after tick
   `pos` and belongs to the grid bin holding that position, if any.
   The plan is a state machine: the grid is cut (Cut), every input file is offered to every output file (Match; each
   output file takes all integrations lying in its bins), output files nobody contributes to are dropped (Drop), and the
   plan is executed one output file at a time (Run) until the stack is complete.                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS N, TPB
VARIABLES pc, in, outfiles, plan, todo, stack
vars == <<pc, in, outfiles, plan, todo, stack>>
RE(S) == {RandomElement(S)}
Day == N * TPB
RECURSIVE FilesFrom(_, _, _, _, _)
\* left: ticks until the night ends
FilesFrom(nf, p, n, step, left) ==
  IF nf = 0 \/ left < n * step THEN <<>>
  ELSE LET gap == IF RandomElement(1..4) = 1 THEN RandomElement(1..(4 * TPB)) ELSE 0
           first == p + gap
       IN <<first>> \o FilesFrom(nf - 1, first + n * step, n, step, left - gap - n * step)
Make == /\ pc = "start" /\ pc' = "cut" /\ UNCHANGED <<outfiles, plan, todo, stack>>
  /\ \E full \in RE(1..4), b0 \in RE(0..(N - 1)), n \in RE({1, 2, 3, 5}), step \in RE({1, 2, 3, 5, 8, 13}), nn \in RE(1..3), zero \in RE(BOOLEAN) :
     \E W \in {IF full = 1 THEN N ELSE RandomElement({2, 3, 4, 5, 7, 8, 11, 12, N - 1})} :
     \E K \in {RandomElement(1..W)} :
     \E near \in {TLCEval([i \in 1..nn |-> RandomElement(1..4)])} :
     \E nights \in {TLCEval([i \in 1..nn |->
          LET anchor == IF near[i] < 4 THEN (b0 + RandomElement(0..W)) * TPB - RandomElement(0..(n * step)) ELSE RandomElement(0..(Day - 1))
              p0 == (anchor + Day) % Day
          IN TLCEval(FilesFrom(RandomElement(1..4), p0, n, step, (6 * Day) \div 10))])} :
     in' = [b0 |-> IF zero THEN 0 ELSE b0, W |-> W, K |-> K, n |-> n, step |-> step, nights |-> nights]
NF == (in.W + in.K - 1) \div in.K
BinsOf(o) == {b \in 0..(in.W - 1) : b \div in.K = o}
Cut == /\ pc = "cut" /\ pc' = "match" /\ outfiles' = [o \in 0..(NF - 1) |-> BinsOf(o)] /\ UNCHANGED <<in, plan, todo, stack>>
\* the grid bin (counted from b0) of integration t of file f of night i, or -1
BinOf(i, f, t) == LET p == (in.nights[i][f] + t * in.step - in.b0 * TPB + 4 * Day) % Day
                  IN IF p < in.W * TPB THEN p \div TPB ELSE -1
Ids == {x \in UNION {{<<i, f, t>> : f \in 1..Len(in.nights[i]), t \in 0..(in.n - 1)} : i \in 1..Len(in.nights)} : TRUE}
Match == /\ pc = "match" /\ pc' = "run"
         /\ LET M == [o \in DOMAIN outfiles |-> {x \in Ids : BinOf(x[1], x[2], x[3]) \in outfiles[o]}]
            IN plan' = M /\ todo' = {o \in DOMAIN outfiles : M[o] # {}}
         /\ UNCHANGED <<in, outfiles, stack>>
Run == /\ pc = "run" /\ todo # {}
       /\ \E o \in RE(todo) : /\ todo' = todo \ {o}
            /\ stack' = [b \in DOMAIN stack \union outfiles[o] |-> IF b \in outfiles[o] THEN {x \in plan[o] : BinOf(x[1], x[2], x[3]) = b} ELSE stack[b]]
       /\ UNCHANGED <<pc, in, outfiles, plan>>
Lex(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3])))
AsSeq(S) == SetToSortSeq(S, Lex)
Emit == /\ pc = "run" /\ todo = {} /\ pc' = "done" /\ UNCHANGED <<in, outfiles, plan, todo, stack>>
        /\ CSVWrite("%1$s", <<ToJson([in |-> in,
              out |-> [nf |-> NF,
                       files |-> [o \in 1..NF |-> [bins |-> SetToSortSeq(outfiles[o - 1], <), ids |-> AsSeq(plan[o - 1])]],
                       bins |-> [b \in 1..in.W |-> AsSeq(IF (b - 1) \in DOMAIN stack THEN stack[b - 1] ELSE {})]]])>>, IOEnv.OUT)
Init == /\ pc = "start" /\ in = [b0 |-> 0, W |-> 0, K |-> 1, n |-> 0, step |-> 0, nights |-> <<>>]
        /\ outfiles = <<>> /\ plan = <<>> /\ todo = {} /\ stack = <<>>
Next == Make \/ Cut \/ Match \/ Run \/ Emit
\* ---- properties ------------------------------------------------------------------------------------------------
EveryBinInOneFile == pc \in {"match", "run", "done"} => \A b \in 0..(in.W - 1) : Cardinality({o \in DOMAIN outfiles : b \in outfiles[o]}) = 1
NoIntegrationTwice == pc \in {"run", "done"} => \A o, q \in DOMAIN plan : o # q => plan[o] \cap plan[q] = {}
\* executing file by file, in any order, gives the stack of the whole grid
Complete == pc = "done" => \A x \in Ids : LET b == BinOf(x[1], x[2], x[3]) IN
              IF b = -1 THEN \A c \in DOMAIN stack : x \notin stack[c] ELSE b \in DOMAIN stack /\ x \in stack[b] /\ \A c \in DOMAIN stack : x \in stack[c] => c = b
FullDayLosesNothing == pc = "done" /\ in.W = N => \A x \in Ids : \E c \in DOMAIN stack : x \in stack[c]
=============================================================================
