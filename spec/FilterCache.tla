----------------------------- MODULE FilterCache -----------------------------
(* C10.  Processes share one cache directory.  A writer stores its new filters in several low-level steps (create,
   write block by block, publish) and may crash between any two of them; a reader lists the directory and then loads
   the cache files it saw one by one.  A filter matrix is determined by its key.
   Atomic = TRUE : blocks go to a private name and publishing renames it (what the package must guarantee);
   Atomic = FALSE: blocks go to the public name (used as a negative control: the invariants must then fail).   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Writers, Readers, Keys, Blocks, Atomic
VARIABLES files,   \* public cache files: writer -> [keys, complete]
          wr,      \* writer -> [st, keys, b]
          rd,      \* reader -> [st, todo, got, ok, floor]
          done     \* keys whose writer has finished
vars == <<files, wr, rd, done>>
NoFile == [keys |-> {}, complete |-> FALSE, there |-> FALSE]
Start(w, K) == /\ wr[w].st = "idle" /\ wr' = [wr EXCEPT ![w] = [st |-> "writing", keys |-> K, b |-> 0]]
               /\ files' = IF Atomic THEN files ELSE [files EXCEPT ![w] = [keys |-> K, complete |-> FALSE, there |-> TRUE]]
               /\ UNCHANGED <<rd, done>>
Block(w) == /\ wr[w].st = "writing" /\ wr[w].b < Blocks
            /\ wr' = [wr EXCEPT ![w].b = @ + 1]
            /\ files' = IF Atomic THEN files ELSE [files EXCEPT ![w].complete = (wr[w].b + 1 = Blocks)]
            /\ UNCHANGED <<rd, done>>
Publish(w) == /\ wr[w].st = "writing" /\ wr[w].b = Blocks
              /\ wr' = [wr EXCEPT ![w].st = "finished"]
              /\ files' = [files EXCEPT ![w] = [keys |-> wr[w].keys, complete |-> TRUE, there |-> TRUE]]
              /\ done' = done \cup wr[w].keys /\ UNCHANGED rd
Crash(w) == /\ wr[w].st = "writing" /\ wr' = [wr EXCEPT ![w].st = "crashed"] /\ UNCHANGED <<files, rd, done>>
List(r) == /\ rd[r].st = "idle"
           /\ rd' = [rd EXCEPT ![r] = [st |-> "loading", todo |-> {w \in Writers : files[w].there}, got |-> {}, ok |-> TRUE, floor |-> done]]
           /\ UNCHANGED <<files, wr, done>>
Load(r) == /\ rd[r].st = "loading" /\ rd[r].todo # {}
           /\ \E w \in rd[r].todo : rd' = [rd EXCEPT ![r].todo = @ \ {w}, ![r].got = @ \cup files[w].keys, ![r].ok = @ /\ files[w].complete]
           /\ UNCHANGED <<files, wr, done>>
Finish(r) == /\ rd[r].st = "loading" /\ rd[r].todo = {} /\ rd' = [rd EXCEPT ![r].st = "finished"] /\ UNCHANGED <<files, wr, done>>
Init == /\ files = [w \in Writers |-> NoFile] /\ done = {}
        /\ wr = [w \in Writers |-> [st |-> "idle", keys |-> {}, b |-> 0]]
        /\ rd = [r \in Readers |-> [st |-> "idle", todo |-> {}, got |-> {}, ok |-> TRUE, floor |-> {}]]
Next == \/ \E w \in Writers : Block(w) \/ Publish(w) \/ Crash(w) \/ \E K \in SUBSET Keys \ {{}} : Start(w, K)
        \/ \E r \in Readers : List(r) \/ Load(r) \/ Finish(r)
-----------------------------------------------------------------------------
ReadersNeverFail == \A r \in Readers : rd[r].ok
NothingLost == \A r \in Readers : rd[r].st = "finished" => rd[r].floor \subseteq rd[r].got
NothingInvented == \A r \in Readers : rd[r].got \subseteq UNION {wr[w].keys : w \in Writers}
AllOrNothing == \A w \in Writers : files[w].there => files[w].complete
CrashLeavesNothing == \A w \in Writers : wr[w].st = "crashed" => ~files[w].there
=============================================================================
