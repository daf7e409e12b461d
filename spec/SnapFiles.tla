----------------------------- MODULE SnapFiles -----------------------------
(* C25.  Histories of decoherence measurements: built, written (never over a file unless told to), read back and joined in time.  A
   measurement holds one cell of results per (SNAP, integration); a cell is known by where it was made: <<part, SNAP, integration>>.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Snaps, Ants, NT, MaxOps
VARIABLES pc, parts, objs, disk, ops, n
vars == <<pc, parts, objs, disk, ops, n>>
RE(S) == {RandomElement(S)}
NoCell == <<0, 0, 0>>
\* an object: the integrations it holds (in order), cell per SNAP and integration, mapping (0: antenna not mapped), channels, settings,
\* blocks covered and at an edge, extent of the band (lo, hi; 0 when unmeasured), and the files it came from (0: memory)
Part(k) == \E T \in {RandomSubset(RandomElement(1..2), 1..NT)}, S \in {RandomSubset(RandomElement(1..Cardinality(Snaps)), Snaps)},
              m \in {TLCEval([a \in Ants |-> IF RandomElement(1..4) = 1 THEN 0 ELSE IF RandomElement(1..25) = 1 THEN RandomElement(Snaps) ELSE (a % Cardinality(Snaps)) + 1])},
              c \in {IF RandomElement(1..16) = 1 THEN 2 ELSE 1}, q \in {IF RandomElement(1..16) = 1 THEN 2 ELSE 1},
              cov \in RE(SUBSET {0, 1, 2}), edge \in RE(SUBSET {0, 1, 2}), band \in RE({<<0, 0>>, <<10, 20>>, <<12, 24>>, <<8, 14>>}) :
   parts' = Append(parts, [times |-> T, snaps |-> S, map |-> m, chans |-> c, set |-> q, cov |-> cov, edge |-> edge, band |-> band])
New == /\ pc = "parts" /\ IF Len(parts) < 4 THEN Part(Len(parts) + 1) /\ UNCHANGED <<pc, objs>>
                          ELSE /\ UNCHANGED parts /\ pc' = "ops"
                               /\ objs' = [k \in 1..4 |-> LET p == parts[k] IN
                                    [times |-> SetToSortSeq(p.times, <), cell |-> [s \in p.snaps |-> [t \in p.times |-> <<k, s, t>>]], map |-> p.map, chans |-> p.chans,
                                     set |-> p.set, cov |-> p.cov, edge |-> p.edge, band |-> p.band, files |-> <<0>>]]
       /\ UNCHANGED <<disk, ops, n>>
TimesOf(o) == {o.times[i] : i \in 1..Len(o.times)}
MapOK(os) == \A i, j \in 1..Len(os) : \A a \in Ants : os[i].map[a] = 0 \/ os[j].map[a] = 0 \/ os[i].map[a] = os[j].map[a]
Joinable(os) == /\ \A i, j \in 1..Len(os) : i # j => TimesOf(os[i]) \cap TimesOf(os[j]) = {}
                /\ \A i \in 1..Len(os) : os[i].chans = os[1].chans /\ os[i].set = os[1].set
                /\ MapOK(os)
Lo(S) == IF S \ {0} = {} THEN 0 ELSE Min(S \ {0})
Hi(S) == IF S \ {0} = {} THEN 0 ELSE Max(S \ {0})
Joined(os) == LET I == 1..Len(os)
                  T == UNION {TimesOf(os[i]) : i \in I}
                  Of(t) == CHOOSE i \in I : t \in TimesOf(os[i])
                  byT == SortSeq(os, LAMBDA x, y : x.times[1] < y.times[1])
              IN [times |-> SetToSortSeq(T, <),
                  cell |-> [s \in UNION {DOMAIN os[i].cell : i \in I} |-> [t \in T |-> IF s \in DOMAIN os[Of(t)].cell THEN os[Of(t)].cell[s][t] ELSE NoCell]],
                  map |-> [a \in Ants |-> Max({os[i].map[a] : i \in I})], chans |-> os[1].chans, set |-> os[1].set,
                  cov |-> UNION {os[i].cov : i \in I}, edge |-> UNION {os[i].edge : i \in I},
                  band |-> <<Lo({os[i].band[1] : i \in I}), Hi({os[i].band[2] : i \in I})>>,
                  files |-> FlattenSeq([i \in 1..Len(byT) |-> byT[i].files])]
Wire(o) == [times |-> o.times, cell |-> {<<s, [i \in 1..Len(o.times) |-> o.cell[s][o.times[i]]]>> : s \in DOMAIN o.cell}, map |-> {<<a, o.map[a]>> : a \in {b \in Ants : o.map[b] # 0}},
            chans |-> o.chans, set |-> o.set, cov |-> o.cov, edge |-> o.edge, band |-> o.band, files |-> o.files]
Log(r) == ops' = Append(ops, r) /\ n' = n + 1
Write == pc = "ops" /\ n < MaxOps /\ \E k \in RE(DOMAIN objs), f \in RE(1..3), c \in RE(BOOLEAN) :
   /\ disk' = IF disk[f] = <<>> \/ c THEN [disk EXCEPT ![f] = <<[objs[k] EXCEPT !.files = <<f>>]>>] ELSE disk
   /\ Log([op |-> "write", k |-> k, f |-> f, clobber |-> c, ok |-> disk[f] = <<>> \/ c, res |-> 0]) /\ UNCHANGED <<pc, parts, objs>>
Into(res) == objs' = IF Len(objs) < 7 THEN Append(objs, res) ELSE [objs EXCEPT ![Len(objs)] = res]
Read == pc = "ops" /\ n < MaxOps /\ \E F \in {RandomSubset(RandomElement(1..3), 1..3)} : \E fs \in RE(SetToSeqs(F)) :
   /\ \A f \in F : disk[f] # <<>>
   /\ LET os == [i \in 1..Len(fs) |-> disk[fs[i]][1]] IN
      IF Len(os) = 1 \/ Joinable(os)
      THEN LET r == IF Len(os) = 1 THEN os[1] ELSE Joined(os) IN Into(r) /\ Log([op |-> "read", f |-> fs, ok |-> TRUE, res |-> Wire(r)])
      ELSE UNCHANGED objs /\ Log([op |-> "read", f |-> fs, ok |-> FALSE, res |-> 0])
   /\ UNCHANGED <<pc, parts, disk>>
Join == pc = "ops" /\ n < MaxOps /\ \E K \in {RandomSubset(RandomElement(2..3), DOMAIN objs)} : \E ks \in RE(SetToSeqs(K)) :
   /\ LET os == [i \in 1..Len(ks) |-> objs[ks[i]]] IN
      IF Joinable(os) THEN Into(Joined(os)) /\ Log([op |-> "join", k |-> ks, ok |-> TRUE, res |-> Wire(Joined(os))])
      ELSE UNCHANGED objs /\ Log([op |-> "join", k |-> ks, ok |-> FALSE, res |-> 0])
   /\ UNCHANGED <<pc, parts, disk>>
End == /\ pc = "ops" /\ n = MaxOps /\ pc' = "end" /\ UNCHANGED <<parts, objs, disk, ops, n>>
       /\ CSVWrite("%1$s", <<ToJson([parts |-> [k \in 1..4 |-> Wire([times |-> SetToSortSeq(parts[k].times, <), cell |-> [s \in parts[k].snaps |-> [t \in parts[k].times |-> <<k, s, t>>]],
                  map |-> parts[k].map, chans |-> parts[k].chans, set |-> parts[k].set, cov |-> parts[k].cov, edge |-> parts[k].edge, band |-> parts[k].band, files |-> <<0>>])],
               ops |-> ops, disk |-> [f \in 1..3 |-> IF disk[f] = <<>> THEN 0 ELSE Wire(disk[f][1])]])>>, IOEnv.OUT)
Init == pc = "parts" /\ parts = <<>> /\ objs = <<>> /\ disk = [f \in 1..3 |-> <<>>] /\ ops = <<>> /\ n = 0
Next == New \/ Write \/ Read \/ Join \/ End
\* ---- what a user relies on: every cell an object holds was measured at that integration and SNAP; nothing measured is dropped by joining
CellsTrue == \A k \in DOMAIN objs : \A s \in DOMAIN objs[k].cell : DOMAIN objs[k].cell[s] = TimesOf(objs[k])
                 /\ \A t \in TimesOf(objs[k]) : LET c == objs[k].cell[s][t] IN c = NoCell \/ (c[2] = s /\ c[3] = t /\ t \in parts[c[1]].times /\ s \in parts[c[1]].snaps)
OneSource == \A k \in DOMAIN objs : \A t \in TimesOf(objs[k]) : Cardinality({objs[k].cell[s][t][1] : s \in DOMAIN objs[k].cell} \ {0}) = 1
Kept == \A k \in DOMAIN objs : \A s \in DOMAIN objs[k].cell : \E t \in TimesOf(objs[k]) : objs[k].cell[s][t] # NoCell
Ordered == \A k \in DOMAIN objs : \A i \in 1..(Len(objs[k].times) - 1) : objs[k].times[i] < objs[k].times[i + 1]
=============================================================================
