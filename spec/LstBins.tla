-------------------------------- MODULE LstBins --------------------------------
(* C17.  Sidereal time is a circle of N ticks.  A grid is a sequence of edges (unwrapped, the first in 0..N-1, total
   width at most N).  Every night is a file holding some oriented baselines at some integrations; an integration sits at
   tick k or half a tick later (mid).  Stacking puts every integration of every file into the bin that contains it; on an
   edge either neighbour may take it, but exactly one does.  In every bin the rows keep the order (file, time), and for
   every requested baseline a row holds what its own file stores for that baseline (conjugated when stored reversed), or
   nothing.  In redundantly averaged mode a file stores one member of some groups and requests are group keys.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS N, Ants
VARIABLES pc, in, out
RE(S) == {RandomElement(S)}
Rev(p) == <<p[2], p[1]>>
RECURSIVE Widths(_, _)
Widths(n, left) == IF n = 0 \/ left = 0 THEN <<>> ELSE LET w == RandomElement(1..Min({3, left})) IN <<w>> \o Widths(n - 1, left - w)
RECURSIVE FullWidths(_)
FullWidths(left) == IF left = 0 THEN <<>> ELSE LET w == RandomElement(1..Min({3, left})) IN <<w>> \o FullWidths(left - w)
EdgesOf(e0, ws) == [i \in 1..(Len(ws) + 1) |-> e0 + FoldSeq(LAMBDA a, b : a + b, 0, SubSeq(ws, 1, i - 1))]
OnePer(S) == {p \in S : ~(Rev(p) \in S /\ p[1] < p[2])}
RECURSIVE Shuf(_)
Shuf(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<IF RandomElement(BOOLEAN) THEN x ELSE Rev(x)>> \o Shuf(S \ {x})
GroupsOf(s) == LET n == Len(s)  cuts == RandomSubset(RandomElement(0..(n - 1)), 1..(n - 1))
                   e == <<0>> \o SetToSortSeq(cuts, <) \o <<n>>
               IN [i \in 1..(Len(e) - 1) |-> [k \in 1..(e[i + 1] - e[i]) |-> s[e[i] + k]]]
Upairs == {p \in Ants \X Ants : p[1] <= p[2]}
Cross == {p \in Upairs : p[1] # p[2]}
RandOr(p) == IF RandomElement(BOOLEAN) THEN p ELSE Rev(p)
\* at most one member of every group, in a random orientation
RECURSIVE PickReps(_)
PickReps(gs) == IF gs = <<>> THEN <<>>
                ELSE (IF RandomElement(1..4) = 1 THEN <<>> ELSE <<RandOr(Head(gs)[RandomElement(1..Len(Head(gs)))])>>) \o PickReps(Tail(gs))
Ints(mids) == [t \in 1..RandomElement(1..5) |-> [k |-> RandomElement(0..(N - 1)), mid |-> IF mids THEN TRUE ELSE RandomElement(BOOLEAN)]]
Make == /\ pc = "start" /\ pc' = "go" /\ UNCHANGED out
  /\ \E e0 \in RE(0..(N - 1)), full \in RE(1..3), red \in RE(1..3), shift \in RE({-1, 0, 0, 0, 1}), nf \in RE(1..4) :
     \E ws \in {IF full = 1 THEN FullWidths(N) ELSE Widths(RandomElement(1..5), N)} :
     \E base \in {RandomSubset(RandomElement(2..Cardinality(Cross)), Cross)}, autos \in {RandomSubset(RandomElement(0..1), Upairs \ Cross)} :
     \E groups \in {GroupsOf(Shuf(base))} :
     \E files \in {TLCEval([f \in 1..nf |-> TLCEval([
            stored |-> IF red = 1 THEN PickReps(groups) ELSE TLCEval(LET P == RandomSubset(RandomElement(0..Cardinality(base \union autos)), base \union autos) IN Shuf(P)),
            ints |-> TLCEval(Ints(shift # 0)),
            use |-> RandomElement(1..3)])])} :
     \E req \in {IF red = 1 THEN [g \in 1..Len(groups) |-> RandOr(groups[g][1])] ELSE Shuf(base \union autos)} :
     in' = [e0 |-> e0, edges |-> EdgesOf(e0, ws), shift |-> shift, red |-> (red = 1), groups |-> groups, files |-> files, req |-> req,
            given |-> RandomElement(BOOLEAN)]
\* ---- what the stack must be -----------------------------------------------------------------------------------
NB == Len(in.edges) - 1
Full == in.edges[NB + 1] - in.edges[1] = N
\* positions in half ticks, unwrapped to lie in [first edge, first edge + N)
Pos(x) == LET p == 2 * x.k + (IF x.mid THEN 1 ELSE 0) IN IF p < 2 * in.edges[1] THEN p + 2 * N ELSE p
\* bins that may hold it: 0 stands for "outside the grid"
Allowed(x) == LET p == Pos(x)
                  ins == {i \in 1..NB : 2 * in.edges[i] <= p /\ p <= 2 * in.edges[i + 1]}
                  wrapped == IF Full /\ p = 2 * in.edges[1] THEN {NB} ELSE {}
                  outer == IF ~Full /\ (p = 2 * in.edges[1] \/ p = 2 * in.edges[NB + 1]) THEN {0} ELSE {}
              IN IF ins = {} THEN {0} ELSE ins \union wrapped \union outer
SameGroup(p, q) == \E g \in 1..Len(in.groups) : (\E i \in 1..Len(in.groups[g]) : in.groups[g][i] = p) /\ (\E i \in 1..Len(in.groups[g]) : in.groups[g][i] = q)
\* what file f stores for request r: <<pair, conjugated>> or <<>>
Source(f, r) == LET st == in.files[f].stored
                    hit(i) == IF in.red THEN SameGroup(st[i], r) \/ SameGroup(Rev(st[i]), Rev(r)) ELSE st[i] = r
                    hitr(i) == IF in.red THEN SameGroup(Rev(st[i]), r) \/ SameGroup(st[i], Rev(r)) ELSE Rev(st[i]) = r
                    A == {i \in 1..Len(st) : hit(i)}
                    B == {i \in 1..Len(st) : hitr(i)}
                IN IF A # {} THEN [p |-> st[CHOOSE i \in A : TRUE], c |-> FALSE, ok |-> TRUE]
                   ELSE IF B # {} THEN [p |-> st[CHOOSE i \in B : TRUE], c |-> TRUE, ok |-> TRUE]
                   ELSE [p |-> r, c |-> FALSE, ok |-> FALSE]
Run == /\ pc = "go" /\ pc' = "end" /\ UNCHANGED in
       /\ \E r \in {[bins |-> [f \in 1..Len(in.files) |-> [t \in 1..Len(in.files[f].ints) |-> Allowed(in.files[f].ints[t])]],
                     src |-> [f \in 1..Len(in.files) |-> [q \in 1..Len(in.req) |-> Source(f, in.req[q])]]]} :
          /\ out' = r
          /\ CSVWrite("%1$s", <<ToJson([in |-> in, out |-> r])>>, IOEnv.OUT)
Init == pc = "start" /\ in = <<>> /\ out = {}
Next == Make \/ Run
\* ---- what a user relies on --------------------------------------------------------------------------------------
AtMostTwoOnEdges == pc = "end" => \A f \in 1..Len(in.files) : \A t \in 1..Len(in.files[f].ints) :
       LET a == out.bins[f][t]  x == in.files[f].ints[t] IN /\ a # {} /\ Cardinality(a) <= 2 /\ (x.mid => Cardinality(a) = 1)
FullDayLosesNothing == pc = "end" /\ Full => \A f \in 1..Len(in.files) : \A t \in 1..Len(in.files[f].ints) : 0 \notin out.bins[f][t]
InsideIsKept == pc = "end" => \A f \in 1..Len(in.files) : \A t \in 1..Len(in.files[f].ints) :
       (2 * in.edges[1] < Pos(in.files[f].ints[t]) /\ Pos(in.files[f].ints[t]) < 2 * in.edges[NB + 1]) => 0 \notin out.bins[f][t]
===============================================================================
