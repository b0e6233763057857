---------------------------- MODULE MCRunHistory ----------------------------
EXTENDS RunHistory, IOUtils, Json, SequencesExt
CONSTANT HistLen
CONSTANT Cli
TheOps == IF Cli THEN CliOps ELSE Ops
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(TheOps))
VARIABLES s, k, last, op
vars == <<s, k, last, op>>
Init == s = Start /\ k = 0 /\ last = Start /\ op = [op |-> "-", i |-> "-", flag |-> "-", d |-> "-", kind |-> "-"]
Next == /\ k < HistLen
        /\ \E o \in TheOps : LET r == Step(s, o, k + 1)
                          IN  /\ s' = [fs |-> r.fs, cfg |-> r.cfg]
                              /\ op' = o
        /\ k' = k + 1 /\ last' = s
Spec == Init /\ [][Next]_vars
Files(fs) == {<<e.d, e.p>> : e \in fs}
(* one entry per path *)
Functional == \A e1, e2 \in s.fs : e1.d = e2.d /\ e1.p = e2.p => e1 = e2
(* runs never touch anything outside the run directories *)
OutsideUntouched == {e \in s.fs : e.d \notin RunDirs} = {e \in Start.fs : e.d \notin RunDirs}
(* without permission nothing that exists changes *)
NoOverwriteNoChange ==
    op.op \in {"run", "backup"} =>
      \A d \in RunDirs : Inside(last.fs, d) # Inside(s.fs, d) /\ Inside(last.fs, d) # {} =>
          \/ op.flag = "yes"
          \/ op.flag = "none" /\ Inis[IF op.op = "run" THEN op.i ELSE last.cfg[op.d]].ow
(* with permission nothing old survives *)
OverwriteLeavesNothing ==
    op.op \in {"run", "backup"} =>
      \A d \in RunDirs : Inside(last.fs, d) # Inside(s.fs, d) => Inside(last.fs, d) \cap Inside(s.fs, d) \subseteq {Exists(d)}
(* nothing lies in a directory that does not exist *)
DirectoryExists == \A d \in RunDirs : Inside(s.fs, d) # {} => Exists(d) \in s.fs
(* a run directory made by a run can be repeated from its backup *)
BackupPresent == \A d \in RunDirs : s.cfg[d] # "-" => \E e \in Inside(s.fs, d) : e.p = BackupOf(Inis[s.cfg[d]].name)
=============================================================================
