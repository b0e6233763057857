------------------------------ MODULE TestCase ------------------------------
(* Started without a parameter file the program runs the test case that lies   *)
(* in the package: as any other file, but in a temporary directory that is     *)
(* gone afterwards, so that nothing is left of the run.                        *)
(* Directories: P the package, M a configured model directory, W the working   *)
(* directory with the caller's own files, T the place for temporary files.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* test-case files: run name ("-": not given), model directory ("-": not given; N does not exist), *)
(* realizations, outputs, and what becomes of a run                                                *)
F(name, dir, num, outs, fate) == [name |-> name, dir |-> dir, num |-> num, outs |-> outs, fate |-> fate]
Files == [one   |-> F("small", "-", 1, {"npz"}, "ok"),
          many  |-> F("small", "-", 3, {"npz", "pickle"}, "ok"),
          plain |-> F("-", "-", 1, {"pickle"}, "ok"),
          else  |-> F("small", "M", 2, {"npz"}, "ok"),
          nodir |-> F("small", "N", 1, {"npz", "pickle"}, "ok"),
          none  |-> F("small", "-", 2, {}, "ok"),
          bad   |-> F("small", "-", 1, {"npz"}, "bad"),
          fail  |-> F("small", "-", 2, {"npz"}, "fail"),
          late  |-> F("small", "-", 2, {"npz"}, "late")]
Names == DOMAIN Files
RunName(f) == IF Files[f].name = "-" THEN "made" ELSE Files[f].name
Digit == <<"1", "2", "3">>
InReal(f, r) == IF Files[f].num = 1 THEN "" ELSE "real_00" \o Digit[r] \o "/"
ResultsOf(f, r) == {InReal(f, r) \o RunName(f) \o "." \o x : x \in Files[f].outs}
Results(f) == UNION {ResultsOf(f, r) : r \in 1..Files[f].num}
E(d, p) == [d |-> d, p |-> p]

(* calls: of the test case, or of the caller's own file W/own.ini (run directory W/own) *)
Calls == {[op |-> "test", f |-> f, via |-> v, flag |-> g] : f \in Names, v \in {"run", "cli"}, g \in {"none", "yes", "no"}}
         \cup {[op |-> "own", f |-> "-", via |-> v, flag |-> "yes"] : v \in {"run", "cli"}}
TheCalls == {c \in Calls : ~(c.via = "cli" /\ c.flag = "no")}
Outcome(c) == IF c.op = "own" \/ Files[c.f].fate = "ok" THEN "ok" ELSE "fails"
OwnResults == {E("W", "own/own.npz"), E("W", "own/own_autogenerated_backup.ini")}

(* what is there at first, without and with directories where the results would go otherwise *)
Start(nb) == {E("P", "made.ini"), E("W", "own.ini"), E("W", "mine.txt"), E("M", "mine.txt")}
             \cup (IF nb THEN {E("P", "small/mine.txt"), E("M", "small/mine.txt"), E("P", "made/mine.txt"), E("W", "small/mine.txt")} ELSE {})
=============================================================================
