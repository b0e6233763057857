------------------------------- MODULE Backup -------------------------------
(* Run directories, what they were made from, and what lies in them.  Two      *)
(* files (1, 2) share the run directory "W"; "Y" receives copies of it.        *)
(* A run directory is [cfg, res]: the file whose backup it holds, and the file *)
(* and random state its results belong to; Empty where there is none.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Places == {"W", "Y"}
Files == {1, 2}
Empty == [cfg |-> 0, res |-> <<0, 0>>]
Start == [p \in Places |-> Empty]
Op(o, f, p, s) == [op |-> o, f |-> f, p |-> p, s |-> s]
Runs(states) == {Op("run", f, "W", s) : f \in Files, s \in states}
Agains(states) == {Op("again", 0, p, s) : p \in Places, s \in states}
Copies == {Op("copy", 0, "Y", 0)}
Ops(states) == Runs(states) \cup Agains(states) \cup Copies
Possible(d, o) == CASE o.op = "run" -> TRUE
                    [] o.op = "again" -> d[o.p] # Empty
                    [] o.op = "copy" -> d["W"] # Empty
(* the run of a backup is the run of the file it was made from *)
Source(d, o) == IF o.op = "run" THEN o.f ELSE d[o.p].cfg
Step(d, o) == CASE o.op = "copy" -> [d EXCEPT !["Y"] = d["W"]]
                [] OTHER -> [d EXCEPT ![o.p] = [cfg |-> Source(d, o), res |-> <<Source(d, o), o.s>>]]
=============================================================================
