---------------------------- MODULE MC_Checkpoint ----------------------------
(* All histories of up to MaxRuns runs over two methods, four data versions *)
(* and every crash point: results never depend on the store, nothing stored *)
(* is trained again, everything missing is, and after the crash is gone one *)
(* more run completes, training only what is missing.                       *)
EXTENDS Checkpoint, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Functions
CONSTANTS MaxRuns
Cfgs == {"A", "B"}
Lists == {<<"A">>, <<"A", "B">>, <<"B", "A">>}
Datas == {"base", "xtrain", "ytrain", "xtest"}
Runs == {r \in [ms : Lists, data : Datas, crash : Cfgs \cup {""}, ckpt : BOOLEAN] :
           /\ r.crash = "" \/ r.crash \in Range(r.ms)
           /\ r.ckpt \/ r.crash = ""}
VARIABLES store, hist, last, prev
vars == <<store, hist, last, prev>>
None == [fitted |-> <<>>, crashed |-> FALSE]
Init == store = {} /\ hist = <<>> /\ last = None /\ prev = {}
Do(r) == LET o == Run(store, r.ms, r.data, r.ckpt, r.crash) IN
         /\ store' = o.store /\ hist' = Append(hist, r) /\ prev' = store
         /\ last' = [fitted |-> o.fitted, crashed |-> o.crashed]
Next == Len(hist) < MaxRuns /\ \E r \in Runs : Do(r)
(* prediction as a function of the key alone; a loaded result is the stored key's *)
Spec == Init /\ [][Next]_vars
Cur == hist[Len(hist)]
Wanted == {Key(Cur.ms[i], Cur.data) : i \in 1..Len(Cur.ms)}
NeverRefit == hist # <<>> /\ Cur.ckpt => \A i \in 1..Len(last.fitted) : last.fitted[i] \notin prev
AllTrained == hist # <<>> /\ ~last.crashed => Wanted \subseteq (IF Cur.ckpt THEN prev ELSE {}) \cup Range(last.fitted)
StoreGrows == prev \subseteq store
StoredOnlyCompleted == \A k \in store : \E j \in 1..Len(hist) : hist[j].ckpt /\ hist[j].data = k[2] /\ k[1] \in Range(hist[j].ms)
CrashLosesOnlyTheCrashed == hist # <<>> /\ Cur.ckpt => \A i \in 1..Len(last.fitted) : last.fitted[i] \in store \/ (last.crashed /\ i = Len(last.fitted))
Resumes == hist # <<>> /\ last.crashed /\ Cur.ckpt =>
             LET again == Run(store, Cur.ms, Cur.data, TRUE, "") IN
             /\ ~again.crashed /\ Wanted \subseteq again.store
             /\ Len(again.fitted) + Cardinality(Wanted \cap store) = Cardinality(Wanted)
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq({<<r, q>> : r \in {x \in Runs : x.ckpt}, q \in Runs}))
=============================================================================
