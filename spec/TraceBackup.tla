----------------------------- MODULE TraceBackup ----------------------------
(* One record per operation of a history; the records of a history are consecutive and start with k = 1:                    *)
(*   [hist, k, op, out, own, at]:                                                                                          *)
(*   own: settings read from the operation's original file (run); at: per place the settings its backup gives,              *)
(*   the run directory and the names and contents of the other files.                                                        *)
EXTENDS Backup, TraceIO
VARIABLES l, s
vars == <<l, s>>
(* s: the run directories [d], what was learnt about files [own] and about runs [res], the last record's directories [at] *)
Fresh == [d |-> Start, own |-> <<>>, res |-> <<>>, at |-> [p \in Places |-> <<>>]]
Before(r) == IF r.k = 1 THEN Fresh ELSE s
After(r) == IF r.out # "ok" THEN Before(r).d ELSE Step(Before(r).d, r.op)
Known(m, k) == k \in DOMAIN m
Own(r) == IF r.op.op = "run" THEN (r.op.f :> r.own) @@ Before(r).own ELSE Before(r).own
At(r, p) == IF p \in DOMAIN r.at THEN r.at[p] ELSE <<>>
Names(c) == {c[i].n : i \in 1..Len(c)}
Judge(r) ==
    LET b == Before(r)  n == After(r)  here == At(r, r.op.p)  src == n[r.op.p]
        same == {p \in Places : p # r.op.p}
    IN  IF r.out # "ok" THEN {"run-failed"}
        ELSE Failing({
          <<"another-run-directory-changed", \A p \in same : At(r, p) = b.at[p]>>,
          <<"no-run-directory", here # <<>>>> })
        \cup (IF here = <<>> \/ r.op.op = "copy" THEN {} ELSE Failing({
          <<"settings-of-the-backup-differ", here.settings = Own(r)[src.cfg]>>,
          <<"backup-runs-somewhere-else", here.rundir = r.op.p>>,
          <<"results-differ", Known(b.res, src.res) => here.files = b.res[src.res]>>,
          <<"other-files-than-before", \A q \in DOMAIN b.res : q[1] = src.cfg => Names(here.files) = Names(b.res[q])>> }))
Init == l = 1 /\ s = Fresh
Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ LET r == Trace[l]  b == Before(r)  n == After(r)
           IN  s' = [d |-> n, own |-> Own(r), at |-> [p \in Places |-> At(r, p)],
                     res |-> IF r.out # "ok" \/ r.op.op = "copy" \/ At(r, r.op.p) = <<>> THEN b.res
                             ELSE b.res @@ (n[r.op.p].res :> At(r, r.op.p).files)]
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
