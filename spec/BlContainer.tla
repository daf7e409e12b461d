---------------------------- MODULE BlContainer ----------------------------
(* Abstract machine of the baseline-keyed containers (C01).
   slot[s] is a partial map  physical baseline -> value ; a client names a physical baseline in either
   orientation and any polarisation capitalisation.  kind tells whether values are complex (then the
   opposite orientation reads the conjugate), real or boolean (orientation-independent).
   The history variable `hist` records every client call together with the abstract state that has to
   be observable after it; the harness replays it into the real class.                              *)
EXTENDS BlKeys, TLC, Randomization, Json, CSV, IOUtils

CONSTANTS Ants, Pols, Depth, Kinds,
          MaxBuild, \* most entries given to a constructor in exhaustive mode
          OneVal,   \* TRUE: a single value instead of the full value set
          Sim      \* TRUE: draw one random instance of each action per step (simulation); FALSE: enumerate all
R(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Vals == {-1, 2}

VARIABLES slot, kind, hist, fin
vars == <<slot, kind, hist, fin>>

Keys == {k \in Ants \X Ants \X Pols : TRUE}
CKeys == {k \in Keys : IsCanon(k)}
Slots == {1, 2}
Emp == [k \in {} |-> <<0, 0>>]

\* how value v, written under name k, is stored / read, given the kind
Put(k, v) == IF kind = "cplx" THEN Orient(k, v) ELSE v
Get(m, k) == IF kind = "cplx" THEN Orient(k, m[Canon(k)]) ELSE m[Canon(k)]
Has(m, k) == Canon(k) \in DOMAIN m

ValsOf(kd) == IF OneVal THEN {IF kd = "cplx" THEN <<2, -1>> ELSE <<1, 0>>}
              ELSE IF kd = "cplx" THEN {<<a, b>> : a \in Vals, b \in Vals \cup (IF Sim THEN {0} ELSE {})}
              ELSE IF kd = "real" THEN {<<a, 0>> : a \in Vals}
              ELSE {<<0, 0>>, <<1, 0>>}

Upd(m, k, v) == [c \in DOMAIN m \cup {Canon(k)} |-> IF c = Canon(k) THEN Put(k, v) ELSE m[c]]
Del(m, ks) == [c \in DOMAIN m \ {Canon(k) : k \in ks} |-> m[c]]

Obs(m) == {<<c[1], c[2], c[3], m[c][1], m[c][2]>> : c \in DOMAIN m}
Log(e, s) == hist' = Append(hist, [e |-> e, st |-> <<Obs(s[1]), Obs(s[2])>>])

\* binary operations: the result has the keys of the left operand; where the right operand also has
\* the baseline the values are combined, elsewhere the left value is kept.
Arith == {"add", "sub", "mul", "div", "fdiv"}
Comb(op, a, b) == CASE op = "add" -> GAdd(a, b) [] op = "sub" -> GSub(a, b)
                    [] op = "mul" -> GMul(a, b) [] op = "div" -> GDiv(a, b)
                    [] op = "fdiv" -> IF kind = "cplx" THEN GDiv(a, b) ELSE <<a[1] \div b[1], 0>>
Bin(op, m, n) == [c \in DOMAIN m |-> IF c \in DOMAIN n THEN Comb(op, m[c], n[c]) ELSE m[c]]
Small(v) == v[1] < 1000 /\ v[1] > -1000 /\ v[2] < 1000 /\ v[2] > -1000
OkBin(op, m, n) == /\ DOMAIN m # {} /\ DOMAIN n # {}
                   /\ op \in Arith
                   /\ \A c \in DOMAIN m \cap DOMAIN n :
                        /\ op = "div" => GDivides(n[c], m[c])
                        \* floor division: truncation to Gaussian integers; exact in floats for these divisors
                        /\ op = "fdiv" => (IF kind = "cplx" THEN GNorm(n[c]) \in {1, 2, 4, 8} ELSE n[c][1] > 0)
                        /\ op = "mul" => GNorm(m[c]) < 20000 /\ GNorm(n[c]) < 20000 /\ GNorm(m[c]) * GNorm(n[c]) < 100000

Init == /\ slot = <<Emp, Emp>> /\ kind \in Kinds /\ hist = <<>> /\ fin = FALSE

\* the containers are constructed from dictionaries in one of three layouts
Build(s, ks, layout) ==
  /\ Len(hist) < 2 /\ s = Len(hist) + 1
  /\ \A k1, k2 \in ks : k1 # k2 => Canon(k1) # Canon(k2)
  /\ \E f \in R([ks -> ValsOf(kind)]) :
       LET m == [c \in {Canon(k) : k \in ks} |-> LET k == CHOOSE k \in ks : Canon(k) = c IN Put(k, f[k])]
           ns == [slot EXCEPT ![s] = m]
       IN /\ slot' = ns
          /\ Log([op |-> "build", s |-> s, layout |-> layout, kind |-> kind,
                  items |-> {<<k[1], k[2], k[3], f[k][1], f[k][2]>> : k \in ks}], ns)
  /\ UNCHANGED kind

Set(s, k, v, cse) ==
  /\ Len(hist) >= 2
  /\ LET ns == [slot EXCEPT ![s] = Upd(slot[s], k, v)]
     IN slot' = ns /\ Log([op |-> "set", s |-> s, k |-> k, v |-> v, cse |-> cse], ns)
  /\ UNCHANGED kind

DelOne(s, k, cse) ==
  /\ Len(hist) >= 2 /\ Has(slot[s], k)
  /\ LET ns == [slot EXCEPT ![s] = Del(slot[s], {k})]
     IN slot' = ns /\ Log([op |-> "del", s |-> s, ks |-> <<k>>, cse |-> cse], ns)
  /\ UNCHANGED kind

DelTwo(s, k1, k2, cse) ==
  /\ Len(hist) >= 2 /\ Has(slot[s], k1) /\ Has(slot[s], k2) /\ Canon(k1) # Canon(k2)
  /\ LET ns == [slot EXCEPT ![s] = Del(slot[s], {k1, k2})]
     IN slot' = ns /\ Log([op |-> "del", s |-> s, ks |-> <<k1, k2>>, cse |-> cse], ns)
  /\ UNCHANGED kind

BinOp(d, a, b, op) ==
  /\ Len(hist) >= 2 /\ kind # "bool" /\ OkBin(op, slot[a], slot[b])
  /\ LET ns == [slot EXCEPT ![d] = Bin(op, slot[a], slot[b])]
     IN slot' = ns /\ Log([op |-> op, d |-> d, a |-> a, b |-> b], ns)
  /\ UNCHANGED kind

\* in-place style operators (a += b) are a = a + b: covered by d = a.
Scalar(d, a, op, v) ==
  /\ Len(hist) >= 2 /\ kind # "bool" /\ DOMAIN slot[a] # {}
  /\ op \in Arith /\ (op = "fdiv" => v[1] = 2)
  /\ (kind = "real") => v[2] = 0
  /\ op = "div" => \A c \in DOMAIN slot[a] : GDivides(v, slot[a][c])
  /\ \A c \in DOMAIN slot[a] : GNorm(slot[a][c]) < 20000
  \* a scalar acts on the stored orientation; only orientation-symmetric (real) scalars are abstract ops
  /\ v[2] = 0
  /\ LET ns == [slot EXCEPT ![d] = [c \in DOMAIN slot[a] |-> Comb(op, slot[a][c], v)]]
     IN slot' = ns /\ Log([op |-> "s" \o op, d |-> d, a |-> a, v |-> v], ns)
  /\ UNCHANGED kind

Neg(d, a) ==
  /\ Len(hist) >= 2 /\ DOMAIN slot[a] # {}
  /\ LET ns == [slot EXCEPT ![d] = [c \in DOMAIN slot[a] |->
                   IF kind = "bool" THEN <<1 - slot[a][c][1], 0>> ELSE GNeg(slot[a][c])]]
     IN slot' = ns /\ Log([op |-> IF kind = "bool" THEN "inv" ELSE "neg", d |-> d, a |-> a], ns)
  /\ UNCHANGED kind

\* deep copy: afterwards the two slots are independent
Copy(d, a) ==
  /\ Len(hist) >= 2 /\ d # a
  /\ LET ns == [slot EXCEPT ![d] = slot[a]]
     IN slot' = ns /\ Log([op |-> "copy", d |-> d, a |-> a], ns)
  /\ UNCHANGED kind

Small2 == {ks \in SUBSET Keys : Cardinality(ks) \in 1..MaxBuild}
NextBuild == \E ks \in (IF Sim THEN {RandomSubset(RandomElement({1, 2, 3}), Keys)} ELSE Small2),
                l \in R({"flat", "polfirst", "antfirst"}) : Build(Len(hist) + 1, ks, l)
CS == {"lo", "up"}
NextOps ==
  \/ \E s \in R(Slots), k \in R(Keys), v \in R(ValsOf(kind)), c \in R(CS) : Set(s, k, v, c)
  \/ \E s \in R(Slots), c \in R(CS) : \E k \in R({k \in Keys : Has(slot[s], k)}) : DelOne(s, k, c)
  \/ \E s \in R(Slots), c \in R(CS) : \E k1 \in R({k \in Keys : Has(slot[s], k)}) :
        \E k2 \in R({k \in Keys : Has(slot[s], k) /\ Canon(k) # Canon(k1)}) : DelTwo(s, k1, k2, c)
  \/ \E d \in R(Slots), a \in R(Slots), b \in R(Slots), op \in R(Arith) : BinOp(d, a, b, op)
  \/ \E d \in R(Slots), a \in R(Slots), op \in R(Arith), v \in R({<<2, 0>>, <<-1, 0>>, <<3, 0>>}) : Scalar(d, a, op, v)
  \/ \E d \in R(Slots), a \in R(Slots) : Neg(d, a)
  \/ \E d \in R(Slots), a \in R(Slots) : Copy(d, a)
Done == /\ Len(hist) = Depth /\ ~fin /\ fin' = TRUE
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
        /\ UNCHANGED <<slot, kind, hist>>
Next == \/ /\ Len(hist) < Depth
           /\ IF Len(hist) < 2 THEN NextBuild ELSE NextOps
           /\ UNCHANGED fin
        \/ Done

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties checked on the specification itself *)
TypeOK == \A s \in Slots : DOMAIN slot[s] \subseteq CKeys
\* reading under the reversed name gives the conjugate (complex) or the same value
ConjSym == \A s \in Slots : \A k \in Keys : Has(slot[s], k) =>
             /\ Has(slot[s], Rev(k))
             /\ (kind = "cplx" /\ k # Rev(k)) => Get(slot[s], Rev(k)) = GConj(Get(slot[s], k))
             /\ kind # "cplx" => Get(slot[s], Rev(k)) = Get(slot[s], k)
\* read-your-writes, under the very name used for the write
RYW == (hist # <<>> /\ hist[Len(hist)].e.op = "set") =>
          LET e == hist[Len(hist)].e IN (e.k # Rev(e.k) \/ kind # "cplx" \/ TRUE) => Get(slot[e.s], e.k) = e.v
\* an operation touches at most its destination slot
Frame == [][\A s \in Slots : hist' # hist => LET e == hist'[Len(hist')].e IN
             (e.op \in {"set", "del", "build"} /\ e.s # s) \/ (e.op \notin {"set", "del", "build"} /\ e.d # s)
               => slot'[s] = slot[s]]_vars

=============================================================================
