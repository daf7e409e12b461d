------------------------------- MODULE CalFile -------------------------------
(* Calibration (calfits) files and the object that reads, selects, updates and writes them (C08).
   A calibration holds gains, flags and qualities for every (antenna, polarization, time, channel) and a
   total quality per (polarization, time, channel).  A gain is a product of named factors (a sequence of
   ids, so that combining two calibrations is concatenation); a quality is a version id; a flag is a flag.
   disk is the file the object reads from, mem what it holds.                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils
CONSTANTS Ants, NT, NF, PolSets, Depth
VARIABLES disk, mem, hist, fin
vars == <<disk, mem, hist, fin>>
RE(S) == {RandomElement(S)}
RS1(S) == RandomSubset(RandomElement(1..Cardinality(S)), S)
Filled == 900      \* quality written for channels that were missing (read back as 0)
Unset == 901       \* quality written by write_cal for an antenna-polarization that has no gains (read back as 1)
Cells(m) == m.ants \X m.pols \X m.ts \X m.fs
TCells(m) == m.pols \X m.ts \X m.fs
Empty == [ants |-> {}, pols |-> {}, ts |-> {}, fs |-> {}, g |-> <<>>, f |-> <<>>, q |-> <<>>, tq |-> <<>>, hasq |-> FALSE, hastq |-> FALSE]
Sorted(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => s[i] < s[j]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Contig(S) == Cardinality(S) = Max(S) - Min(S) + 1
Uniform(S) == LET s == Sorted(S) IN \A i \in 2..Cardinality(S) : s[i] - s[i - 1] = s[2] - s[1]
View(m) == LET tt == Sorted(m.ts)
               ff == Sorted(m.fs)
           IN [ts |-> tt, fs |-> ff, pols |-> m.pols, ants |-> m.ants, hasq |-> m.hasq, hastq |-> m.hastq,
               v |-> {[a |-> a, p |-> p,
                       g |-> [i \in DOMAIN tt |-> [j \in DOMAIN ff |-> m.g[<<a, p, tt[i], ff[j]>>]]],
                       f |-> [i \in DOMAIN tt |-> [j \in DOMAIN ff |-> m.f[<<a, p, tt[i], ff[j]>>]]],
                       q |-> [i \in DOMAIN tt |-> [j \in DOMAIN ff |-> m.q[<<a, p, tt[i], ff[j]>>]]]] : a \in m.ants, p \in m.pols},
               tq |-> {[p |-> p, q |-> [i \in DOMAIN tt |-> [j \in DOMAIN ff |-> m.tq[<<p, tt[i], ff[j]>>]]]] : p \in m.pols}]
Restrict(m, ants, pols, ts, fs) ==
  LET r == [m EXCEPT !.ants = ants, !.pols = pols, !.ts = ts, !.fs = fs]
  IN [r EXCEPT !.g = [c \in Cells(r) |-> m.g[c]], !.f = [c \in Cells(r) |-> m.f[c]], !.q = [c \in Cells(r) |-> m.q[c]], !.tq = [c \in TCells(r) |-> m.tq[c]]]
RandFlags(C) == LET T == TLCEval(RandomSubset(RandomElement(0..Cardinality(C)), C)) IN TLCEval([c \in C |-> c \in T])
Start == /\ hist = <<>>
         /\ \E as \in {RS1(Ants)}, pl \in RE(PolSets) : \E nt \in RE(1..NT), nf \in RE(1..NF), hq \in RE({TRUE, TRUE, FALSE}), ht \in RE(BOOLEAN) :
              \E fl \in {RandFlags(as \X pl \X (1..nt) \X (1..nf))} :
              LET m0 == [Empty EXCEPT !.ants = as, !.pols = pl, !.ts = 1..nt, !.fs = 1..nf, !.hasq = hq, !.hastq = ht]
                  m == [m0 EXCEPT !.g = [c \in Cells(m0) |-> <<0>>], !.f = fl, !.q = [c \in Cells(m0) |-> 0], !.tq = [c \in TCells(m0) |-> 0]]
              IN /\ disk' = m /\ mem' = m
                 /\ hist' = <<[e |-> [op |-> "init"], st |-> View(m)]>>
         /\ UNCHANGED fin
Log(e, d, m) == disk' = d /\ mem' = m /\ hist' = Append(hist, [e |-> e, st |-> View(m)]) /\ UNCHANGED fin
Req(m) == [ants |-> IF RandomElement(1..2) = 1 THEN RS1(m.ants) ELSE m.ants,
           pols |-> IF RandomElement(1..3) = 1 THEN RS1(m.pols) ELSE m.pols,
           ts |-> IF RandomElement(1..3) = 1 THEN RS1(m.ts) ELSE m.ts,
           fs |-> IF RandomElement(1..3) = 1 THEN RS1(m.fs) ELSE m.fs]
ReadA == \E r \in {Req(disk)} : Log([op |-> "read", r |-> r], disk, Restrict(disk, r.ants, r.pols, r.ts, r.fs))
SelectA == \E r \in {Req(mem)} : Log([op |-> "select", r |-> r], disk, Restrict(mem, r.ants, r.pols, r.ts, r.fs))
\* update one kind on a rectangle of positions; a kind that was absent appears, zero elsewhere (modelled only when the update covers everything or the kind is present)
UpdateA(kinds) == LET nt == Cardinality(mem.ts)
               nf == Cardinality(mem.fs)
               v == Len(hist)
           IN \E k \in RE(kinds), aps \in {RS1(mem.ants \X mem.pols)} :
              \E t0 \in RE(1..nt), f0 \in RE(1..nf), whole0 \in RE(BOOLEAN) : \E t1 \in RE(t0..nt), f1 \in RE(f0..nf) :
              \E fl \in {RandFlags(Cells(mem))} :
              LET newkind == (k = "q" /\ ~mem.hasq) \/ (k = "tq" /\ ~mem.hastq)
                  whole == whole0 \/ newkind
                  sel == IF newkind THEN mem.ants \X mem.pols ELSE aps
                  tt == Sorted(mem.ts)
                  ff == Sorted(mem.fs)
                  T == IF whole THEN mem.ts ELSE {tt[i] : i \in t0..t1}
                  Fq == IF whole THEN mem.fs ELSE {ff[j] : j \in f0..f1}
                  in(c) == <<c[1], c[2]>> \in sel /\ c[3] \in T /\ c[4] \in Fq
                  ps == {ap[2] : ap \in sel}
                  m == CASE k = "g" -> [mem EXCEPT !.g = [c \in Cells(mem) |-> IF in(c) THEN <<v>> ELSE mem.g[c]]]
                         [] k = "f" -> [mem EXCEPT !.f = [c \in Cells(mem) |-> IF in(c) THEN fl[c] ELSE mem.f[c]]]
                         [] k = "q" -> [mem EXCEPT !.hasq = TRUE, !.q = [c \in Cells(mem) |-> IF in(c) THEN v ELSE mem.q[c]]]
                         [] OTHER -> [mem EXCEPT !.hastq = TRUE, !.tq = [c \in TCells(mem) |-> IF c[1] \in ps /\ c[2] \in T /\ c[3] \in Fq THEN v ELSE mem.tq[c]]]
              IN Log([op |-> "update", k |-> k, aps |-> sel, t |-> IF whole THEN <<1, nt>> ELSE <<t0, t1>>, f |-> IF whole THEN <<1, nf>> ELSE <<f0, f1>>, whole |-> whole], disk, m)
\* a calfits file holds qualities always (absent ones are not stored as absent), so they come back present only if they were
WriteA == /\ Contig(mem.fs) /\ Uniform(mem.ts) /\ mem.hasq
          /\ Log([op |-> "write"], mem, mem)
\* missing channels are filled in with flagged unit gains
SpoofA == /\ Uniform(mem.ts) /\ \E f \in mem.fs : f + 1 \in mem.fs
          /\ LET r == [mem EXCEPT !.fs = Min(mem.fs)..Max(mem.fs)]
                 m == [r EXCEPT !.g = [c \in Cells(r) |-> IF c[4] \in mem.fs THEN mem.g[c] ELSE <<>>],
                                !.f = [c \in Cells(r) |-> IF c[4] \in mem.fs THEN mem.f[c] ELSE TRUE],
                                !.q = [c \in Cells(r) |-> IF c[4] \in mem.fs THEN mem.q[c] ELSE Filled],
                                !.tq = [c \in TCells(r) |-> IF c[3] \in mem.fs THEN mem.tq[c] ELSE Filled]]
             IN Log([op |-> "spoof"], m, m)
\* write_cal from dictionaries holding only some antenna-polarizations
WriteCalA == /\ Contig(mem.fs) /\ Uniform(mem.ts)
             /\ \E aps \in {RS1(mem.ants \X mem.pols)} :
                LET r == [mem EXCEPT !.ants = {x[1] : x \in aps}, !.pols = {x[2] : x \in aps}]
                    m == [r EXCEPT !.g = [c \in Cells(r) |-> IF <<c[1], c[2]>> \in aps THEN mem.g[c] ELSE <<>>],
                                   !.f = [c \in Cells(r) |-> IF <<c[1], c[2]>> \in aps THEN mem.f[c] ELSE TRUE],
                                   !.q = [c \in Cells(r) |-> IF <<c[1], c[2]>> \in aps /\ mem.hasq THEN mem.q[c] ELSE Unset],
                                   !.hasq = TRUE, !.tq = [c \in TCells(r) |-> mem.tq[c]]]
                IN Log([op |-> "writecal", aps |-> aps], m, m)
\* multiply by a second calibration with the same layout: flagged gains count as unity, flags are united (or intersected)
CombineA == /\ Contig(mem.fs) /\ Uniform(mem.ts) /\ mem.hasq
            /\ \E fl \in {RandFlags(Cells(mem))}, bc \in RE(BOOLEAN) :
               LET v == Len(hist)
                   m == [mem EXCEPT !.g = [c \in Cells(mem) |-> (IF mem.f[c] THEN <<>> ELSE mem.g[c]) \o (IF fl[c] THEN <<>> ELSE <<v>>)],
                                    !.f = [c \in Cells(mem) |-> IF bc THEN mem.f[c] \/ fl[c] ELSE mem.f[c] /\ fl[c]]]
                   second == [mem EXCEPT !.g = [c \in Cells(mem) |-> <<v>>], !.f = fl]
               IN Log([op |-> "combine", bc |-> bc, second |-> View(second)], m, m)
Done == /\ hist # <<>> /\ Len(hist) = Depth + 1 /\ ~fin /\ fin' = TRUE
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ UNCHANGED <<disk, mem, hist>>
Init == disk = Empty /\ mem = Empty /\ hist = <<>> /\ fin = FALSE
Next == Start \/ (hist # <<>> /\ Len(hist) <= Depth /\ (ReadA \/ SelectA \/ UpdateA({"g"}) \/ UpdateA({"f", "q", "tq"}) \/ WriteA \/ SpoofA \/ WriteCalA \/ CombineA)) \/ Done
-----------------------------------------------------------------------------
OpName == hist[Len(hist)].e.op
Faithful == (hist # <<>> /\ OpName \in {"read", "write", "spoof", "writecal", "combine"}) => \A c \in Cells(mem) : mem.g[c] = disk.g[c] /\ mem.f[c] = disk.f[c] /\ mem.q[c] = disk.q[c]
\* a unit gain that no calibration supplied is always flagged unless flags were intersected or overwritten since
FilledFlagged == (hist # <<>> /\ OpName = "spoof") => \A c \in Cells(mem) : (mem.g[c] = <<>> /\ mem.q[c] = Filled) => (mem.f[c] \/ \E i \in 1..(Len(hist)-1) : hist[i].e.op \in {"update", "combine"})
OnlyWritesChangeDisk == [][(hist # <<>> /\ disk' # disk) => hist'[Len(hist')].e.op \in {"write", "spoof", "writecal", "combine"}]_vars
=============================================================================
