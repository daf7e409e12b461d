------------------------------- MODULE VisFile -------------------------------
(* Visibility files, the object that reads/updates/writes them, and partial reads (C07).
   A file holds a rectangular set of data: pairs x pols x times x chans.  Every stored quantity (kind) of
   a cell <<physical baseline, t, f>> carries a version number; updating bumps it.  disk is the file the
   object reads from, mem what the object currently holds.                                           *)
EXTENDS BlKeys, TLC, Randomization, Json, CSV, IOUtils
CONSTANTS Ants, NT, NF, PolSets, Depth
VARIABLES disk, mem, hist, fin
vars == <<disk, mem, hist, fin>>
RE(S) == {RandomElement(S)}
RS1(S) == RandomSubset(RandomElement(1..Cardinality(S)), S)
Kinds == {"data", "flags", "nsamples"}
RevP(a) == <<a[2], a[1]>>
OnePer(S) == {a \in S : ~(RevP(a) \in S /\ a[1] < a[2])}
Keys(m) == {<<a[1], a[2], p>> : a \in m.pairs, p \in m.pols}
Phys(m) == {Canon(k) : k \in Keys(m)}
Cells(m) == Phys(m) \X m.ts \X m.fs
Empty == [pairs |-> {}, pols |-> {}, ts |-> {}, fs |-> {}, ver |-> [q \in Kinds |-> <<>>]]

Sorted(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => s[i] < s[j]
View(m) == LET tt == Sorted(m.ts)
               ff == Sorted(m.fs)
           IN [ts |-> tt, fs |-> ff, pols |-> m.pols, pairs |-> m.pairs,
               v |-> {[k |-> k, q |-> [q \in Kinds |-> [i \in DOMAIN tt |-> [j \in DOMAIN ff |-> m.ver[q][<<Canon(k), tt[i], ff[j]>>]]]]] : k \in Keys(m)}]
Restrict(m, pairs, pols, ts, fs) ==
  LET r == [m EXCEPT !.pairs = pairs, !.pols = pols, !.ts = ts, !.fs = fs]
  IN [r EXCEPT !.ver = [q \in Kinds |-> [c \in Cells(r) |-> m.ver[q][c]]]]

Start == /\ hist = <<>>
         /\ \E ps \in {OnePer(RandomSubset(RandomElement(1..6), Ants \X Ants))}, pl \in RE(PolSets) :
            \E nt \in RE(1..NT), nf \in RE(1..NF) :
              LET m0 == [Empty EXCEPT !.pairs = ps, !.pols = pl, !.ts = 1..nt, !.fs = 1..nf]
                  m == [m0 EXCEPT !.ver = [q \in Kinds |-> [c \in Cells(m0) |-> 0]]]
              IN /\ disk' = m /\ mem' = m
                 /\ hist' = <<[e |-> [op |-> "init", pairs |-> ps, pols |-> pl, nt |-> nt, nf |-> nf], st |-> View(m)]>>
         /\ UNCHANGED fin
Log(e, d, m) == disk' = d /\ mem' = m /\ hist' = Append(hist, [e |-> e, st |-> View(m)]) /\ UNCHANGED fin

\* a request: antenna pairs (either orientation), or pairs with polarisations (all pols of all pairs named are
\* returned), polarisations, times, channels
Req(m) == LET how == RandomElement({"none", "pairs", "bls", "pols"})
          IN [how |-> how,
              pairs |-> IF how \in {"pairs", "bls"} THEN RS1(m.pairs) ELSE m.pairs,
              bl |-> how = "bls",
              pols |-> IF how \in {"bls", "pols"} THEN RS1(m.pols) ELSE m.pols,
              ts |-> IF RandomElement(1..2) = 1 THEN RS1(m.ts) ELSE m.ts,
              fs |-> IF RandomElement(1..2) = 1 THEN RS1(m.fs) ELSE m.fs]
ReadA == \E r \in {Req(disk)} : Log([op |-> "read", r |-> r], disk, Restrict(disk, r.pairs, r.pols, r.ts, r.fs))
SelectA == \E r \in {Req(mem)} : Log([op |-> "select", r |-> r], disk, Restrict(mem, r.pairs, r.pols, r.ts, r.fs))
\* update: keys (any orientation) of what is loaded, on a rectangle of positions (1-based, inclusive)
Update(q, ks, t0, t1, f0, f1, whole, v) ==
  LET tt == Sorted(mem.ts)
      ff == Sorted(mem.fs)
      P == {Canon(k) : k \in ks}
      T == {tt[i] : i \in t0..t1}
      Fq == {ff[j] : j \in f0..f1}
      m == [mem EXCEPT !.ver[q] = [c \in Cells(mem) |-> IF c[1] \in P /\ c[2] \in T /\ c[3] \in Fq THEN v ELSE mem.ver[q][c]]]
  IN Log([op |-> "update", q |-> q, ks |-> ks, t |-> <<t0, t1>>, f |-> <<f0, f1>>, whole |-> whole, v |-> v], disk, m)
UpdateA == LET nt == Cardinality(mem.ts)
               nf == Cardinality(mem.fs)
           IN \E q \in RE(Kinds), ks0 \in {RS1(Keys(mem))}, whole \in RE(BOOLEAN) :
              \E ks \in {{IF RandomElement(1..3) = 1 THEN Rev(k) ELSE k : k \in ks0}} :
              \E t0 \in RE(1..nt), f0 \in RE(1..nf) : \E t1 \in RE(t0..nt), f1 \in RE(f0..nf) :
                 IF whole THEN Update(q, ks, 1, nt, 1, nf, TRUE, Len(hist))
                 ELSE Update(q, ks, t0, t1, f0, f1, FALSE, Len(hist))
\* the object writes what it holds to a new file, which is then read back in full
WriteA == Log([op |-> "write"], mem, mem)
Done == /\ hist # <<>> /\ Len(hist) = Depth + 1 /\ ~fin /\ fin' = TRUE
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ UNCHANGED <<disk, mem, hist>>
Init == disk = Empty /\ mem = Empty /\ hist = <<>> /\ fin = FALSE
Next == Start \/ (hist # <<>> /\ Len(hist) <= Depth /\ (ReadA \/ SelectA \/ UpdateA \/ WriteA)) \/ Done
-----------------------------------------------------------------------------
\* what is held is a part of the shape of what is stored, and reading returns exactly the stored versions
Shape == mem.pairs \subseteq disk.pairs /\ mem.pols \subseteq disk.pols /\ mem.ts \subseteq disk.ts /\ mem.fs \subseteq disk.fs
Faithful == (hist # <<>> /\ hist[Len(hist)].e.op \in {"read", "write"}) => \A q \in Kinds : \A c \in Cells(mem) : mem.ver[q][c] = disk.ver[q][c]
OnlyWriteChangesDisk == [][(hist # <<>> /\ disk' # disk) => hist'[Len(hist')].e.op = "write"]_vars
=============================================================================
