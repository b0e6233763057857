--------------------------- MODULE TraceRunNames ----------------------------
EXTENDS RunNames, TraceIO
VARIABLE l
Judge(r) ==
    LET f == r.file  c == r.cfg  w == r.cwd
        name == RunName(f, c)  dir == RunDir(f, c, w)
    IN  IF r.out # "ok" THEN {"run-refused"}
        ELSE Failing({
          <<"wrong-run-name", r.name = name>>,
          <<"wrong-model-directory", r.modeldir = ModelDir(f, c, w)>>,
          <<"wrong-run-directory", r.rundir = dir>>,
          <<"run-directory-not-used", r.newdirs = <<dir>> >>,
          <<"wrong-backup-file", r.newfiles = <<Append(dir, name \o Suffix)>> >> })
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
