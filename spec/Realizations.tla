---------------------------- MODULE Realizations ----------------------------
(* One process that generates models.  The content of a realization and the    *)
(* random state after it are functions Content, After of parameter file and    *)
(* random state; here both are free (uninterpreted), the trace specification   *)
(* learns them.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RealDir(i) == "real_" \o (IF i < 10 THEN "00" ELSE IF i < 100 THEN "0" ELSE "") \o ToString(i)
DirOf(i, num) == IF num = 1 THEN "." ELSE RealDir(i)
Dirs(num) == {DirOf(i, num) : i \in 1..num}
=============================================================================
