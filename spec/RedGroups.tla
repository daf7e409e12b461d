----------------------------- MODULE RedGroups -----------------------------
(* Edit histories of a collection of redundant baseline groups (C03).
   A group is a nonempty set of keys, all with the same polarisation; naming every member in the opposite
   orientation names the same group.  A collection is a set of groups, pairwise disjoint as sets of
   physical baselines; `keyed` is the preference set from which representative keys have to be drawn.   *)
EXTENDS BlKeys, TLC, Randomization, Json, CSV, IOUtils

CONSTANTS Ants, Pols, Depth, Sim, Autos
VARIABLES slot, hist, fin
vars == <<slot, hist, fin>>

R(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Slots == {1, 2}
RevG(G) == {Rev(k) : k \in G}
Phys(G) == {Canon(k) : k \in G}
PhysAll(C) == UNION {Phys(G) : G \in C}
GroupOf(C, k) == CHOOSE G \in C : Canon(k) \in Phys(G)
IsIn(C, k) == \E G \in C : Canon(k) \in Phys(G)
\* the group of k, oriented so that k is literally a member
Oriented(C, k) == LET G == GroupOf(C, k) IN IF k \in G THEN G ELSE RevG(G)

KeysP(p) == {k \in Ants \X Ants \X {p} : IF Autos THEN k[1] = k[2] ELSE k[1] # k[2]}
Proper(G) == G # {} /\ \A k1, k2 \in G : k1 # k2 => Canon(k1) # Canon(k2)
\* candidate new groups made of baselines not yet in the collection
Cand(C, p) == {k \in KeysP(p) : ~IsIn(C, k)}
SubsetsUpTo(S, n) == {T \in SUBSET S : Cardinality(T) \in 1..n}
Fresh(C) == IF Sim
            THEN LET p == RandomElement(Pols)
                     S == Cand(C, p)
                 IN IF S = {} THEN {} ELSE {G \in {RandomSubset(RandomElement(1..(IF Cardinality(S) < 3 THEN Cardinality(S) ELSE 3)), S)} : Proper(G)}
            ELSE {G \in UNION {SubsetsUpTo(Cand(C, p), 2) : p \in Pols} : Proper(G)}

Obs(c) == [gs |-> c.gs, keyed |-> c.keyed]
Log(e, ns) == /\ slot' = ns /\ UNCHANGED fin
              /\ hist' = Append(hist, [e |-> e, st |-> <<Obs(ns[1]), Obs(ns[2])>>])

Init == slot = [s \in Slots |-> [gs |-> {}, keyed |-> {}]] /\ hist = <<>> /\ fin = FALSE

\* d = a: in place; d # a: the operation is asked to return a modified copy, stored in slot d
AddNew(a, d, G, pos) ==
  Log([op |-> "append", a |-> a, d |-> d, red |-> G, pos |-> pos, new |-> TRUE],
      [slot EXCEPT ![d] = [slot[a] EXCEPT !.gs = @ \cup {G}]])
\* red overlaps exactly one existing group H (consistently oriented): that group absorbs the new members
AddMore(a, d, H, flip, M, N) ==
  LET H1 == IF flip THEN RevG(H) ELSE H
      red == M \cup N
  IN /\ M \subseteq H1 /\ M # {} /\ N \cap (H1 \cup RevG(H1)) = {} /\ Proper(red \cup H1)
     /\ \A k \in N : ~IsIn(slot[a].gs, k)
     /\ Log([op |-> "append", a |-> a, d |-> d, red |-> red, pos |-> -1, new |-> FALSE],
            [slot EXCEPT ![d] = [slot[a] EXCEPT !.gs = (@ \ {H}) \cup {H1 \cup N}]])
\* red overlaps two groups, or one group in both orientations: refused, nothing changes
AddBad(a, k1, k2) ==
  /\ Canon(k1) # Canon(k2) /\ IsIn(slot[a].gs, k1) /\ IsIn(slot[a].gs, k2)
  /\ k2 \notin Oriented(slot[a].gs, k1)
  /\ Log([op |-> "appendbad", a |-> a, d |-> a, red |-> {k1, k2}], slot)
Replace(a, H, G, how) ==
  /\ Log([op |-> "replace", a |-> a, d |-> a, at |-> RandomElement(H), how |-> how, red |-> G],
         [slot EXCEPT ![a] = [slot[a] EXCEPT !.gs = (@ \ {H}) \cup {G}]])
Delete(a, H, at, how) ==
  Log([op |-> "delete", a |-> a, d |-> a, at |-> at, how |-> how],
      [slot EXCEPT ![a] = [slot[a] EXCEPT !.gs = @ \ {H}]])
Merge(C, D) == {LET J == {H \in D : Phys(H) \cap Phys(G) # {}} IN
                 IF J = {} THEN G ELSE LET H == CHOOSE H \in J : TRUE
                                           G1 == IF G \cap H # {} THEN G ELSE RevG(G) IN G1 \cup H : G \in C}
               \cup {H \in D : \A G \in C : Phys(G) \cap Phys(H) = {}}
CanMerge(C, D) == /\ \A G \in C : Cardinality({H \in D : Phys(H) \cap Phys(G) # {}}) <= 1
                  /\ \A H \in D : Cardinality({G \in C : Phys(H) \cap Phys(G) # {}}) <= 1
                  /\ \A G \in C, H \in D : Phys(G) \cap Phys(H) # {} =>
                         (G \cap H # {}) # (RevG(G) \cap H # {}) \/ G = RevG(G)
Extend(a, d, how) ==
  /\ CanMerge(slot[a].gs, slot[3 - a].gs)
  /\ Log([op |-> "extend", a |-> a, b |-> 3 - a, d |-> d, how |-> how],
         [slot EXCEPT ![d] = [slot[a] EXCEPT !.gs = Merge(slot[a].gs, slot[3 - a].gs)]])
FilterG(C, X) == {H \in {{k \in G : k[1] \notin X /\ k[2] \notin X} : G \in C} : H # {}}
FilterBls(C, B) == {H \in {{k \in G : k \in B \/ Rev(k) \in B} : G \in C} : H # {}}
ExAnts(a, d, X) ==
  Log([op |-> "exants", a |-> a, d |-> d, x |-> X], [slot EXCEPT ![d] = [slot[a] EXCEPT !.gs = FilterG(@, X)]])
KeepBls(a, d, B) ==
  Log([op |-> "keepbls", a |-> a, d |-> d, bls |-> B], [slot EXCEPT ![d] = [slot[a] EXCEPT !.gs = FilterBls(@, B)]])
KeyOn(a, d, B) ==
  Log([op |-> "keyon", a |-> a, d |-> d, bls |-> B], [slot EXCEPT ![d] = [slot[a] EXCEPT !.keyed = B]])
Sort(a) == Log([op |-> "sort", a |-> a, d |-> a], slot)
Copy(a) == Log([op |-> "copy", a |-> a, d |-> 3 - a], [slot EXCEPT ![3 - a] = slot[a]])

AllKeys(C) == UNION {G \cup RevG(G) : G \in C}
NextOps ==
  \E a \in R(Slots) : \E d \in R(Slots) : LET C == slot[a].gs IN
     \/ \E G \in Fresh(C) : \E ps \in R(-1..Cardinality(C)) : AddNew(a, d, G, ps)
     \/ \E H \in R(C) : \E fl \in R(BOOLEAN), M \in R(SUBSET H), N \in (Fresh(C) \cup {{}}) :
          AddMore(a, d, H, fl, IF fl THEN RevG(M) ELSE M,
                  {k \in N : k[3] = (CHOOSE h \in (IF fl THEN RevG(H) ELSE H) : TRUE)[3]})
     \/ \E k1 \in R(AllKeys(C)) : \E k2 \in R(AllKeys(C)) : AddBad(a, k1, k2)
     \/ \E H \in R(C), how \in R({"int", "bl", "revbl"}) :
          \/ \E G \in Fresh(C) : Replace(a, H, G, how)
          \/ \E M \in R((SUBSET H) \ {{}}) : Replace(a, H, M, how)
     \/ \E H \in R(C), how \in R({"int", "bl", "revbl"}) : \E k \in R(H) : Delete(a, H, k, how)
     \/ \E how \in R({"extend", "add"}) : Extend(a, IF how = "add" THEN 3 - a ELSE d, how)
     \/ \E X \in R(SubsetsUpTo(Ants, 2)) : ExAnts(a, d, X)
     \/ C # {} /\ \E B \in (IF Sim THEN {RandomSubset(RandomElement(1..Cardinality(AllKeys(C))), AllKeys(C))} ELSE {{k} : k \in AllKeys(C)}) :
          KeepBls(a, d, B) \/ KeyOn(a, d, B)
     \/ Sort(a)
     \/ Copy(a)
\* the first two steps build the two collections from scratch
Build == LET s == Len(hist) + 1 IN
  \E G1 \in Fresh({}) : \E G2 \in (Fresh({G1}) \cup {{}}) : \E G3 \in (Fresh({G1, G2} \ {{}}) \cup {{}}) :
     Log([op |-> "build", d |-> s, red |-> {G1, G2, G3} \ {{}}],
         [slot EXCEPT ![s] = [gs |-> {G1, G2, G3} \ {{}}, keyed |-> {}]])
Done == /\ Len(hist) = Depth /\ ~fin /\ fin' = TRUE
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ UNCHANGED <<slot, hist>>
Next == (Len(hist) < 2 /\ Len(hist) < Depth /\ Build) \/ (Len(hist) >= 2 /\ Len(hist) < Depth /\ NextOps) \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Partition == \A s \in Slots : /\ \A G \in slot[s].gs : Proper(G)
                              /\ \A G, H \in slot[s].gs : G # H => Phys(G) \cap Phys(H) = {}
OnePol == \A s \in Slots : \A G \in slot[s].gs : Cardinality({k[3] : k \in G}) = 1
Frame == [][hist' # hist => \A s \in Slots : hist'[Len(hist')].e.d # s => slot'[s] = slot[s]]_vars
=============================================================================
