----------------------------- MODULE Conversions -----------------------------
(* C23.  Keys, polarizations, sidereal clock and sidereal grids (hera_cal.utils, make_lst_grid).
   Part 1: a baseline key <<i, j, <<family, f, g>>>> walks through spellings, splitting, joining and reversing.
   Part 2: a clock in ticks; a solar day is Day ticks and the sky turns once every Sday ticks (fewer); the sidereal
           time at the start of each day is supplied.  Converting back has to pick the right day.
   Part 3: bins of a circle; a set of times on a circle and its largest gap.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Steps, Day, Sday, Guard
VARIABLES pc, what, key, log
vars == <<pc, what, key, log>>
RE(S) == {RandomElement(S)}
\* ---- keys ------------------------------------------------------------------------------------------------------------
Feeds == [lin |-> {"x", "y"}, circ |-> {"r", "l"}, card |-> {"e", "n"}]
Vis(p) == p[2] \o p[3]                      \* name of a visibility polarization
Ant(f) == "J" \o f \o f
Rev(k) == <<k[2], k[1], <<k[3][1], k[3][3], k[3][2]>>>>
Upper == [x |-> "X", y |-> "Y", r |-> "R", l |-> "L", e |-> "E", n |-> "N"]
VisSpell(p, s) == CASE s = 1 -> Vis(p) [] s = 2 -> Upper[p[2]] \o Upper[p[3]] [] s = 3 -> p[2] \o Upper[p[3]] [] OTHER -> Upper[p[2]] \o p[3]
AntSpell(f, s) == CASE s = 1 -> Ant(f) [] s = 2 -> f [] s = 3 -> Upper[f] [] OTHER -> "j" \o f \o f
Entry(op, s, t, k) == [op |-> op, spell |-> VisSpell(k[3], s), a |-> AntSpell(k[3][2], s), b |-> AntSpell(k[3][3], t),
                       i |-> k[1], j |-> k[2], name |-> Vis(k[3]), ai |-> Ant(k[3][2]), aj |-> Ant(k[3][3]), rev |-> Vis(Rev(k)[3])]
StartKeys == /\ pc = "start" /\ what' = "keys" /\ pc' = "walk" /\ log' = <<>>
             /\ \E fam \in RE(DOMAIN Feeds) : \E f \in RE(Feeds[fam]), g \in RE(Feeds[fam]), i \in RE(0..400), j \in RE(0..400) : key' = <<i, j, <<fam, f, g>>>>
Walk == /\ pc = "walk" /\ Len(log) < Steps
        /\ \E op \in RE({"reverse", "split_join", "comply", "make3", "make2", "conj"}), s \in RE(1..4), t \in RE(1..4) :
           /\ log' = Append(log, Entry(op, s, t, key))
           /\ key' = CASE op = "reverse" -> Rev(key)
                       [] op = "conj" -> <<key[1], key[2], Rev(key)[3]>>
                       [] OTHER -> key
        /\ UNCHANGED <<pc, what>>
WalkDone == pc = "walk" /\ Len(log) = Steps /\ pc' = "emit" /\ UNCHANGED <<what, key, log>>
\* ---- the clock --------------------------------------------------------------------------------------------------------
L0 == IF "DAYS" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.DAYS) ELSE <<0>>          \* sidereal time at the start of each day, in ticks
\* ticks since the start of the day at which the sidereal time is l
OnDay(l0, l) == {t \in {(l - l0 + k * Sday) : k \in -2..3} : 0 <= t /\ t < Day}
Clear(S) == \A t \in S : t > Guard /\ t < Day - Guard
StartClock ==
   /\ pc = "start" /\ what' = "clock" /\ pc' = "emit" /\ key' = <<>>
   /\ \E days \in {L0} : \E d \in RE(DOMAIN days), l \in RE(0..(Sday - 1)), c \in RE(0..(Sday - 1)) :
      LET l0 == days[d]
          same == OnDay(l0, l)
          cut == OnDay(l0, c)
      IN /\ Clear({t \in {l - l0 + k * Sday : k \in -2..3} : t > -Guard /\ t < Day + Guard})
         /\ Clear({t \in {c - l0 + k * Sday : k \in -2..3} : t > -Guard /\ t < Day + Guard})
         /\ (l - c) % Sday > Guard /\ (c - l) % Sday > Guard
         /\ log' = [day |-> d, lst |-> l, cut |-> c, same |-> same,
                    other |-> {t + ((l - c) % Sday) : t \in cut}]     \* later than the branch cut, which is on the day
\* ---- circles ------------------------------------------------------------------------------------------------------------
Gap(S, t, n) == LET B == {u \in S : u # t} IN IF B = {} THEN n ELSE Min({(t - u) % n : u \in B})    \* up to t from its predecessor
StartCircle ==
   /\ pc = "start" /\ what' = "circle" /\ pc' = "emit" /\ key' = <<>>
   /\ \E n \in RE(5..60), k \in RE(1..12), b \in RE(0..1000), w \in RE(2..40) : \E S \in {TLCEval({RandomElement(0..(n - 1)) : z \in 1..k})} :
      LET wide == Max({Gap(S, t, n) : t \in S})
          M == IF w <= n THEN w ELSE n
          \* slots of width 10; the first bin has its centre closest to b, seen on 0..10n
          x == b % (10 * n)
          near == Min({IF 10 * q + 5 >= x THEN 10 * q + 5 - x ELSE x - 10 * q - 5 : q \in 0..(n - 1)})
      IN log' = [n |-> n, times |-> S, cuts |-> {t \in S : Gap(S, t, n) = wide}, span |-> n - wide,
                 begin |-> b, bins |-> M, first |-> {q \in 0..(n - 1) : (IF 10 * q + 5 >= x THEN 10 * q + 5 - x ELSE x - 10 * q - 5) = near}]
\* ---- picking baselines ---------------------------------------------------------------------------------------------------
Opt(S) == IF RandomElement(1..3) = 1 THEN <<>> ELSE <<S>>          \* a criterion that is not given keeps everything
Some(S, n) == RandomSubset(RandomElement(0..Min({n, Cardinality(S)})), S)
StartFilter ==
   /\ pc = "start" /\ what' = "filter" /\ pc' = "emit" /\ key' = <<>>
   /\ \E xy \in {TLCEval([a \in 1..5 |-> <<RandomElement(0..3), RandomElement(0..3)>>])}, n \in RE(0..12), lo \in {Opt(RandomElement(0..9))}, hi \in {Opt(RandomElement(2..18))},
         pols \in {Opt(Some({"ee", "nn", "en", "ne"}, 4))}, num \in {Some(1..5, 5)}, xnum \in {Some(1..5, 2)}, mode \in RE(1..3), xmode \in RE(1..3) :
      \E bls \in {TLCEval([k \in 1..n |-> <<RandomElement(1..5), RandomElement(1..5), RandomElement({"e", "n"}), RandomElement({"e", "n"})>>])},
         prs \in {Some((1..5) \X {"e", "n"}, 8)}, xprs \in {Some((1..5) \X {"e", "n"}, 3)} :
      LET In(a, f, N, P) == a \in N \/ <<a, f>> \in P
          D2(b) == (xy[b[1]][1] - xy[b[2]][1]) * (xy[b[1]][1] - xy[b[2]][1]) + (xy[b[1]][2] - xy[b[2]][2]) * (xy[b[1]][2] - xy[b[2]][2])
          K(b) == /\ mode = 1 \/ (In(b[1], b[3], num, prs) /\ In(b[2], b[4], num, prs))
                  /\ xmode = 1 \/ ~(In(b[1], b[3], xnum, xprs) \/ In(b[2], b[4], xnum, xprs))
                  /\ pols = <<>> \/ (b[3] \o b[4]) \in pols[1]
                  /\ lo = <<>> \/ D2(b) > lo[1]
                  /\ hi = <<>> \/ D2(b) <= hi[1]
      IN log' = [xy |-> xy, bls |-> bls, lo |-> lo, hi |-> hi, pols |-> pols, ants |-> IF mode = 1 THEN <<>> ELSE <<[num |-> num, prs |-> prs]>>,
                 ex |-> IF xmode = 1 THEN <<>> ELSE <<[num |-> xnum, prs |-> xprs]>>, keep |-> SelectSeq(bls, K)]
Emit == /\ pc = "emit" /\ pc' = "end" /\ UNCHANGED <<what, key, log>>
        /\ CSVWrite("%1$s", <<ToJson([what |-> what, key |-> key, log |-> log])>>, IOEnv.OUT)
Init == pc = "start" /\ what = "" /\ key = <<>> /\ log = <<>>
Next == \/ /\ pc = "start" /\ \E c \in RE(1..5) : (c <= 2 /\ StartClock) \/ (c = 3 /\ StartKeys) \/ (c = 4 /\ StartCircle) \/ (c = 5 /\ StartFilter)
        \/ Walk \/ WalkDone \/ Emit
\* ---- what a user relies on ----------------------------------------------------------------------------------------------
ReverseIsInvolution == what = "keys" => Rev(Rev(key)) = key
ReverseSwapsAntennas == what = "keys" => LET r == Rev(key) IN <<r[1], r[3][2]>> = <<key[2], key[3][3]>> /\ <<r[2], r[3][3]>> = <<key[1], key[3][2]>>
NamesDistinct == \A fa \in DOMAIN Feeds, fb \in DOMAIN Feeds : \A p \in Feeds[fa] \X Feeds[fa], q \in Feeds[fb] \X Feeds[fb] :
                    Vis(<<fa, p[1], p[2]>>) = Vis(<<fb, q[1], q[2]>>) => p = q
\* every sidereal time comes round on every day, at most twice
OnceADay == what = "clock" /\ pc = "emit" => Cardinality(log.same) \in {1, 2} /\ log.other # {}
CutIsTight == what = "circle" /\ pc = "emit" => \A c \in log.cuts : Max({(t - c) % log.n : t \in log.times}) = log.span
=============================================================================
