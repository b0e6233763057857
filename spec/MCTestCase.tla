----------------------------- MODULE MCTestCase ----------------------------
(* The steps of a run: read the file, take a temporary directory, write one    *)
(* realization after the other, remove the directory.                          *)
EXTENDS TestCase, IOUtils, Json, SequencesExt
CONSTANT HistLen
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(TheCalls))
VARIABLES fs, pc, call, r, k, nb
vars == <<fs, pc, call, r, k, nb>>
NoCall == [op |-> "-", f |-> "-", via |-> "-", flag |-> "-"]
Init == /\ nb \in BOOLEAN /\ fs = Start(nb) /\ pc = "idle" /\ call = NoCall /\ r = 0 /\ k = 0
Keep == UNCHANGED nb
Temp == {e \in fs : e.d = "T"}
Begin == /\ pc \in {"idle", "done", "failed"} /\ k < HistLen
         /\ \E c \in TheCalls : call' = c
         /\ pc' = "read" /\ k' = k + 1 /\ r' = 0 /\ fs' = fs \ Temp /\ Keep      (* the rest of a failed run is the caller's affair *)
Read == /\ pc = "read"
        /\ IF call.op = "own" THEN pc' = "done" /\ fs' = fs \cup OwnResults
           ELSE IF Files[call.f].fate = "bad" THEN pc' = "failed" /\ UNCHANGED fs
           ELSE pc' = "real" /\ fs' = fs \cup {E("T", "./")}
        /\ UNCHANGED <<call, r, k>> /\ Keep
Write == /\ pc = "real" /\ r < Files[call.f].num
         /\ IF Files[call.f].fate = "ok"
            THEN r' = r + 1 /\ fs' = fs \cup {E("T", p) : p \in ResultsOf(call.f, r + 1)} /\ UNCHANGED pc
            ELSE /\ pc' = "failed" /\ UNCHANGED r
                 /\ fs' = fs \cup (IF Files[call.f].fate = "late" THEN {E("T", p) : p \in ResultsOf(call.f, 1)} ELSE {})
         /\ UNCHANGED <<call, k>> /\ Keep
Clean == /\ pc = "real" /\ r = Files[call.f].num
          /\ pc' = "done" /\ fs' = fs \ Temp
          /\ UNCHANGED <<call, r, k>> /\ Keep
Next == Begin \/ Read \/ Write \/ Clean
Spec == Init /\ [][Next]_vars
NothingElse == {e \in fs : e.d # "T"} \subseteq Start(nb) \cup OwnResults
NothingLost == Start(nb) \subseteq fs
NothingLeft == pc = "done" => Temp = {}
CompleteFirst == (pc = "done" /\ call.op = "test") => r = Files[call.f].num /\ Outcome(call) = "ok"
Truthful == pc = "failed" => Outcome(call) = "fails"
OwnKept == (pc = "done" /\ call.op = "own") => OwnResults \subseteq fs
Separate == \A f \in Names : Cardinality(Results(f)) = Files[f].num * Cardinality(Files[f].outs)
=============================================================================
