------------------------------- MODULE RedDC -------------------------------
(* One visibility per redundant group (C03): groups is a partition (set of oriented groups); val maps a
   group to the visibility of its members in the group's orientation.                                *)
EXTENDS BlKeys, TLC, Randomization, Json, CSV, IOUtils
CONSTANTS Ants, Pols, Depth, Sim
VARIABLES groups, val, hist, fin
vars == <<groups, val, hist, fin>>
R(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
RevG(G) == {Rev(k) : k \in G}
Phys(G) == {Canon(k) : k \in G}
IsIn(C, k) == \E G \in C : Canon(k) \in Phys(G)
GroupOf(k) == CHOOSE G \in groups : Canon(k) \in Phys(G)
KeysP(p) == {k \in Ants \X Ants \X {p} : k[1] # k[2]}
AllK == UNION {KeysP(p) : p \in Pols}
Proper(G) == G # {} /\ \A k1, k2 \in G : k1 # k2 => Canon(k1) # Canon(k2)
Vals == {<<a, b>> : a \in {-2, 1, 3}, b \in {-1, 2}}
FreshG(C) == LET p == RandomElement(Pols)
                 S == {k \in KeysP(p) : ~IsIn(C, k)}
             IN IF S = {} THEN {} ELSE {G \in {RandomSubset(RandomElement(1..(IF Cardinality(S) < 3 THEN Cardinality(S) ELSE 3)), S)} : Proper(G)}
St(v) == {[g |-> G, v |-> v[G]] : G \in DOMAIN v}
Init == groups = {} /\ val = [G \in {} |-> <<0, 0>>] /\ hist = <<>> /\ fin = FALSE
Build == /\ hist = <<>>
         /\ \E G1 \in FreshG({}) : \E G2 \in (FreshG({G1}) \cup {{}}) : \E G3 \in (FreshG({G1, G2} \ {{}}) \cup {{}}) :
              LET C == {G1, G2, G3} \ {{}} IN
              \E D \in R((SUBSET C) \ {{}}) : \E v \in R([D -> Vals]) :
              \E rep \in R({f \in [D -> UNION {G \cup RevG(G) : G \in D}] : \A G \in D : f[G] \in G \cup RevG(G)}) :
                   /\ groups' = C /\ val' = v
                   /\ hist' = <<[e |-> [op |-> "build", groups |-> C,
                                        data |-> {<<rep[G], IF rep[G] \in G THEN v[G] ELSE GConj(v[G])>> : G \in D}], st |-> St(v)]>>
         /\ UNCHANGED fin
Set(k, v) ==
  LET C == IF IsIn(groups, k) THEN groups ELSE groups \cup {{k}}
      G == IF IsIn(groups, k) THEN GroupOf(k) ELSE {k}
      nv == [H \in DOMAIN val \cup {G} |-> IF H = G THEN (IF k \in G THEN v ELSE GConj(v)) ELSE val[H]]
  IN /\ groups' = C /\ val' = nv /\ UNCHANGED fin
     /\ hist' = Append(hist, [e |-> [op |-> "set", k |-> k, v |-> v], st |-> St(nv)])
Done == /\ Len(hist) = Depth /\ ~fin /\ fin' = TRUE
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ UNCHANGED <<groups, val, hist>>
Next == Build \/ (hist # <<>> /\ Len(hist) < Depth /\ \E k \in R(AllK), v \in R(Vals) : Set(k, v)) \/ Done
TypeOK == DOMAIN val \subseteq groups /\ \A G, H \in groups : G # H => Phys(G) \cap Phys(H) = {}
=============================================================================
