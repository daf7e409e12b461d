------------------------------ MODULE NoClobber ------------------------------
(* C09.  A directory of output paths; every writer of the package is given a path and an overwrite flag.  A path
   holds a version: 0 = nothing there, otherwise the number of the call (or of the outside event) that put the
   present content there. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization, Json, CSV, IOUtils
CONSTANTS NPath, Depth
VARIABLES fs, n, hist, fin
vars == <<fs, n, hist, fin>>
RE(S) == {RandomElement(S)}
VisW == {"partial_write", "write_vis", "update_vis", "apply_cal", "apply_cal_partial", "apply_cal_avg", "apply_cal_avg_partial", "autos", "noise", "chunk_data",
         "throw_away", "select_spw", "vc_write_data", "vc_write_data_partial", "vc_filtered", "vc_filtered_partial", "reconstitute", "reconstitute_bounds", "lstbin_file", "time_average", "delay_filter", "delay_filter_partial", "redcal_vis"}
CalW == {"write_cal", "update_cal", "hc_write", "combine_calfits", "multiply_gains", "chunk_gains", "smooth_cal", "auto_reflections", "redcal_first", "redcal_omni"}
H5W  == {"redcal_meta", "snap", "redcal_meta_run"}
MirW == {"write_vis_miriad", "update_vis_miriad"}
Kinds == {"uvh5", "calfits", "h5", "miriad"}
WritersOf(k) == CASE k = "uvh5" -> VisW [] k = "calfits" -> CalW [] k = "h5" -> H5W [] OTHER -> MirW
Paths == {<<k, i>> : k \in Kinds, i \in 1..NPath}
Ow == {TRUE, FALSE}
\* Writing: a path that exists is replaced only when overwriting was asked for.
Write == \E k \in RE({"uvh5", "uvh5", "uvh5", "calfits", "calfits", "h5", "miriad"}) : \E w \in RE(WritersOf(k)), i \in RE(1..NPath), ow \in RE(Ow) :
           LET p == <<k, i>> IN
           /\ n' = n + 1
           /\ fs' = [fs EXCEPT ![p] = IF @ # 0 /\ ~ow THEN @ ELSE n + 1]
           /\ hist' = Append(hist, [op |-> "write", w |-> w, p |-> p, ow |-> ow, keep |-> (fs[p] # 0 /\ ~ow), n |-> n + 1])
\* Something else (an unrelated file) appears at, or disappears from, a path.
Foreign == \E p \in RE(Paths) : n' = n + 1 /\ fs' = [fs EXCEPT ![p] = n + 1] /\ hist' = Append(hist, [op |-> "foreign", p |-> p, n |-> n + 1])
Remove == \E p \in RE(Paths) : n' = n + 1 /\ fs' = [fs EXCEPT ![p] = 0] /\ hist' = Append(hist, [op |-> "remove", p |-> p, n |-> n + 1])
Step == \E c \in RE(1..10) : IF c = 1 THEN Foreign ELSE IF c = 2 THEN Remove ELSE Write
Done == /\ ~fin /\ Len(hist) = Depth /\ fin' = TRUE
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ UNCHANGED <<fs, n, hist>>
Init == fs = [p \in Paths |-> 0] /\ n = 0 /\ hist = <<>> /\ fin = FALSE
Next == (Len(hist) < Depth /\ Step /\ UNCHANGED fin) \/ Done
-----------------------------------------------------------------------------
TypeOK == \A p \in Paths : fs[p] \in 0..n
NoLoss == [][\A p \in Paths : (fs[p] # 0 /\ fs'[p] # fs[p]) => (hist'[Len(hist')].p = p /\ (hist'[Len(hist')].op \in {"foreign", "remove"} \/ hist'[Len(hist')].ow))]_<<fs, n>>
OthersKept == [][\A p \in Paths : fs'[p] # fs[p] => hist'[Len(hist')].p = p]_<<fs, n>>
=============================================================================
