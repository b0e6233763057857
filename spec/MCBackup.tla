------------------------------ MODULE MCBackup ------------------------------
(* All histories of runs, runs of backups, and copies of run directories.      *)
EXTENDS Backup, IOUtils, Json, SequencesExt
CONSTANTS HistLen, States
(* histories with the state they lead to *)
RECURSIVE Hist(_)
Hist(n) == IF n = 0 THEN {<< <<>>, Start>>}
           ELSE UNION {{<<Append(h[1], o), Step(h[2], o)>> : o \in {q \in Ops(States) : Possible(h[2], q)}} : h \in Hist(n - 1)}
(* the ones in which a backup is run *)
ASSUME "OUT" \in DOMAIN IOEnv =>
    ndJsonSerialize(IOEnv.OUT, SetToSeq({[hist |-> h[1]] : h \in {g \in UNION {Hist(n) : n \in 2..HistLen} : \E i \in 1..Len(g[1]) : g[1][i].op = "again"}}))
VARIABLES d, hist
vars == <<d, hist>>
Init == d = Start /\ hist = <<>>
Next == /\ Len(hist) < HistLen
        /\ \E o \in Ops(States) : Possible(d, o) /\ d' = Step(d, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
(* the file that was run last, disregarding runs of backups *)
RECURSIVE LastFile(_, _)
LastFile(p, n) == IF n = 0 THEN 0
                  ELSE IF p = "Y" THEN (IF hist[n].op = "copy" THEN LastFile("W", n - 1) ELSE LastFile(p, n - 1))
                  ELSE IF hist[n].op = "run" THEN hist[n].f ELSE LastFile(p, n - 1)
(* a chain of backups never leaves the file it started with *)
Chain == \A p \in Places : d[p].cfg = LastFile(p, Len(hist))
(* the results are always those of the backup that lies beside them *)
Consistent == \A p \in Places : d[p].res[1] = d[p].cfg
(* what happens to one directory does not matter to the other *)
Apart == [][\A p \in Places : hist'[Len(hist')].p # p => d'[p] = d[p]]_vars
(* repeating with the same random state changes nothing *)
Idempotent == \A p \in Places : d[p] # Empty => Step(d, Op("again", 0, p, d[p].res[2])) = d
=============================================================================
