---------------------------- MODULE TFContainer ----------------------------
(* Time/frequency axes of a data container (C02).
   A container is a pair (rows, cols): rows[i] is the identity of the integration at position i, cols[j]
   that of the channel at position j.  The datum of baseline b at (i, j) is the datum originally observed
   for (b, rows[i], cols[j]); all metadata lists are functions of rows and cols.
   slot 1 is worked on in place; slot 2 receives results that were asked for as copies, so that an
   operation which disturbs the original is visible.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NT, NF,      \* initial numbers of integrations and channels
          Depth, MaxLen, Sim
VARIABLES slot, hist, fin
vars == <<slot, hist, fin>>

R(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Slots == {1, 2}
Range(s) == {s[i] : i \in DOMAIN s}
SeqsOf(S, n) == UNION {[1..k -> S] : k \in 1..n}
Pick(s, idx) == [i \in DOMAIN idx |-> s[idx[i]]]
\* a permuted initial order, so that axes start out unsorted
Perm(n, k) == CASE k = 0 -> [i \in 1..n |-> i]
                [] k = 1 -> [i \in 1..n |-> n + 1 - i]
                [] k = 2 -> [i \in 1..n |-> IF i = 1 THEN n ELSE i - 1]

Init == /\ \E a \in 0..2, b \in 0..2 :
              /\ slot = [s \in Slots |-> [rows |-> Perm(NT, a), cols |-> Perm(NF, b), meta |-> TRUE, tr |-> FALSE]]
              /\ hist = <<[e |-> [op |-> "init", rows |-> Perm(NT, a), cols |-> Perm(NF, b)],
                           st |-> slot]>>
        /\ fin = FALSE

Log(e, ns) == slot' = ns /\ hist' = Append(hist, [e |-> e, st |-> ns]) /\ UNCHANGED fin

\* sequences of length <= n over S: exhaustive or one random
SomeSeq(S, n) == IF Sim THEN {[i \in 1..RandomElement(1..n) |-> RandomElement(S)]} ELSE SeqsOf(S, n)

\* the frequency axis of a transposed container can only be recognised by its length
AxisClear(a) == slot[a].tr => Len(slot[a].rows) # Len(slot[a].cols)
\* source a, destination d: d = a means in place
SelTimes(a, d, ts) ==
  /\ slot[a].meta /\ ~slot[a].tr
  /\ Log([op |-> "seltimes", a |-> a, d |-> d, ts |-> ts], [slot EXCEPT ![d] = [slot[a] EXCEPT !.rows = ts]])
SelIdx(a, d, idx) ==
  /\ slot[a].meta /\ ~slot[a].tr
  /\ Log([op |-> "selidx", a |-> a, d |-> d, idx |-> idx],
         [slot EXCEPT ![d] = [slot[a] EXCEPT !.rows = Pick(slot[a].rows, idx)]])
SelFreqs(a, d, fs) ==
  /\ slot[a].meta /\ AxisClear(a)
  /\ Log([op |-> "selfreqs", a |-> a, d |-> d, fs |-> fs], [slot EXCEPT ![d] = [slot[a] EXCEPT !.cols = fs]])
SelChans(a, d, idx) ==
  /\ slot[a].meta /\ AxisClear(a)
  /\ Log([op |-> "selchans", a |-> a, d |-> d, idx |-> idx],
         [slot EXCEPT ![d] = [slot[a] EXCEPT !.cols = Pick(slot[a].cols, idx)]])
\* channel slice lo..hi-1 with a step
SliceIdx(lo, hi, st) == [i \in 1..((hi - lo + st - 1) \div st) |-> lo + (i - 1) * st]
\* counted from the last channel down when rev
SelSlice(a, d, lo, hi, st, rev) ==
  /\ slot[a].meta /\ lo < hi /\ hi <= Len(slot[a].cols) + 1 /\ AxisClear(a)
  /\ Log([op |-> "selslice", a |-> a, d |-> d, lo |-> lo, hi |-> hi, stp |-> st, rev |-> rev],
         [slot EXCEPT ![d] = [slot[a] EXCEPT !.cols = Pick(slot[a].cols, LET ix == SliceIdx(lo, hi, st) IN
                                IF rev THEN [i \in DOMAIN ix |-> lo + hi - 1 - ix[i]] ELSE ix)]])
\* split every st-th of the integrations lo..hi (from the other end when rev) into n alternating parts of equal
\* length, dropping what does not divide; keep part i (1-based)
Deint(a, d, n, i, lo, hi, st, rev) ==
  /\ slot[a].meta /\ ~slot[a].tr /\ i <= n /\ lo <= hi /\ hi <= Len(slot[a].rows)
  /\ LET ix == SliceIdx(lo, hi + 1, st)
         r == Pick(slot[a].rows, IF rev THEN [k \in DOMAIN ix |-> lo + hi - ix[k]] ELSE ix)
         m == Len(r) \div n
     IN /\ m >= 1
        /\ Log([op |-> "deint", a |-> a, d |-> d, n |-> n, i |-> i, lo |-> lo, hi |-> hi, stp |-> st, rev |-> rev],
               [slot EXCEPT ![d] = [slot[a] EXCEPT !.rows = [k \in 1..m |-> r[(k - 1) * n + i]]]])
\* exchanging the two axes of the data leaves the lists alone
Trans(a, d) == a # d /\ Log([op |-> "trans", a |-> a, d |-> d], [slot EXCEPT ![d] = [slot[a] EXCEPT !.tr = ~@]])
\* concatenation drops the metadata lists (they are None afterwards)
Cat(d, ax) ==
  /\ slot[1].meta /\ slot[2].meta /\ ~slot[1].tr /\ ~slot[2].tr
  /\ ax = 0 => slot[1].cols = slot[2].cols
  /\ ax = 1 => slot[1].rows = slot[2].rows
  /\ LET r == IF ax = 0 THEN slot[1].rows \o slot[2].rows ELSE slot[1].rows
         c == IF ax = 1 THEN slot[1].cols \o slot[2].cols ELSE slot[1].cols
     IN Log([op |-> "cat", d |-> d, ax |-> ax], [slot EXCEPT ![d] = [rows |-> r, cols |-> c, meta |-> FALSE, tr |-> FALSE]])
Copy(a, d) == a # d /\ Log([op |-> "copy", a |-> a, d |-> d], [slot EXCEPT ![d] = slot[a]])

NextOps ==
  \E a \in R(Slots) : \E d \in R(Slots) :
     \/ \E ts \in SomeSeq(Range(slot[a].rows), MaxLen) : SelTimes(a, d, ts)
     \/ \E ix \in SomeSeq(DOMAIN slot[a].rows, MaxLen) : SelIdx(a, d, ix)
     \/ \E fs \in SomeSeq(Range(slot[a].cols), MaxLen) : SelFreqs(a, d, fs)
     \/ \E ix \in SomeSeq(DOMAIN slot[a].cols, MaxLen) : SelChans(a, d, ix)
     \/ \E lo \in R(1..Len(slot[a].cols)), hi \in R(2..(Len(slot[a].cols) + 1)), st \in R(1..2), rv \in R(BOOLEAN) : SelSlice(a, d, lo, hi, st, rv)
     \/ \E n \in R(1..3), i \in R(1..3), lo \in R(1..2), hi \in R({Len(slot[a].rows), Len(slot[a].rows) - 1}), st \in R(1..2), rv \in R(BOOLEAN) : Deint(a, d, n, i, lo, hi, st, rv)
     \/ Trans(a, d)
     \/ \E ax \in R({0, 1}) : Cat(d, ax)
     \/ Copy(a, d)
Done == /\ Len(hist) = Depth /\ ~fin /\ fin' = TRUE
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ UNCHANGED <<slot, hist>>
Next == (Len(hist) < Depth /\ NextOps) \/ Done
Spec == Init /\ [][Next]_vars

\* identities never leave the originally observed set; a container is never left with an empty axis
TypeOK == \A s \in Slots : /\ Range(slot[s].rows) \subseteq 1..NT /\ Range(slot[s].cols) \subseteq 1..NF
                           /\ Len(slot[s].rows) >= 1 /\ Len(slot[s].cols) >= 1
\* an operation that is not in place does not change the other container
Frame == [][hist' # hist => \A s \in Slots : hist'[Len(hist')].e.d # s => slot'[s] = slot[s]]_vars
=============================================================================
