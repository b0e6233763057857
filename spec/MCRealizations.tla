--------------------------- MODULE MCRealizations ---------------------------
(* The process as a state machine: a model object that is reused, the random   *)
(* state, and the directories of the current run.                              *)
EXTENDS Realizations
CONSTANTS Files, MaxSteps, MaxNum
Content(f, st) == <<f, st>>
After(f, st) == (st * 3 + (IF f = "f1" THEN 1 ELSE 2)) % 7
VARIABLES model, rng, run, disk, n
vars == <<model, rng, run, disk, n>>
None == <<"-", 0>>
Init == model = None /\ rng = 0 /\ run = [f |-> "-", st |-> 0, num |-> 0, i |-> 0] /\ disk = <<>> /\ n = 0
Seed(k) == run.i = run.num /\ rng' = k /\ UNCHANGED <<model, run, disk>>
Start(f, num) == /\ run.i = run.num
                 /\ run' = [f |-> f, st |-> rng, num |-> num, i |-> 0]
                 /\ disk' = <<>> /\ UNCHANGED <<model, rng>>
Realize == /\ run.i < run.num
           /\ model' = Content(run.f, rng)      \* whatever the model contained before
           /\ rng' = After(run.f, rng)
           /\ disk' = [d \in DOMAIN disk \cup {DirOf(run.i + 1, run.num)} |->
                         IF d = DirOf(run.i + 1, run.num) THEN model' ELSE disk[d]]
           /\ run' = [run EXCEPT !.i = @ + 1]
Reassign == run.i = run.num /\ UNCHANGED <<model, rng, run, disk>>
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ \E k \in 0..2 : Seed(k)
           \/ \E f \in Files, num \in 1..MaxNum : Start(f, num)
           \/ Realize \/ Reassign
Spec == Init /\ [][Next]_vars
RECURSIVE Chain(_, _, _)
Chain(f, st, i) == IF i = 1 THEN st ELSE After(f, Chain(f, st, i - 1))
(* every realization lies in its own directory, nothing is lost, and it is the one a fresh process would give *)
Separate == /\ DOMAIN disk = {DirOf(i, run.num) : i \in 1..run.i}
            /\ \A i \in 1..run.i : disk[DirOf(i, run.num)] = Content(run.f, Chain(run.f, run.st, i))
DistinctDirs == \A num \in 1..MaxNum : Cardinality(Dirs(num)) = num
=============================================================================
