-------------------------- MODULE TraceRunHistory ---------------------------
(* One record per operation of a history: [hist, k, op, out, fs]; records of a *)
(* history are consecutive and start with k = 1.                               *)
EXTENDS RunHistory, TraceIO
VARIABLES l, s
vars == <<l, s>>
Rng(q) == {q[i] : i \in 1..Len(q)}
Seen(r) == {e \in {E(x.d, x.p, x.t) : x \in Rng(r.fs)} : e.d # "W/f"}
Before(r) == IF r.k = 1 THEN Start ELSE s
After(r) == Step(Before(r), r.op, r.k)
Judge(r) ==
    LET b == Before(r)  w == After(r)  got == Seen(r)
        running == r.op.op \in {"run", "backup"}
        dir == IF r.op.op = "run" THEN Inis[r.op.i].dir ELSE r.op.d
        unmodified == {e \in b.fs : e \in got}
    IN  Failing({
          <<"ran-although-it-must-not", w.out = "fails" => r.out # "ok">>,
          <<"failed-although-it-must-run", w.out = "ok" => r.out = "ok">>,
          <<"something-outside-the-run-directory-changed",
              {e \in got : e.d \notin RunDirs \/ (running /\ e.d # dir)} = {e \in b.fs : e.d \notin RunDirs \/ (running /\ e.d # dir)}>>,
          <<"existing-run-directory-touched", w.out = "fails" => Inside(got, dir) = Inside(b.fs, dir)>>,
          <<"old-content-left-behind",
              w.out = "ok" /\ running => (Inside(b.fs, dir) \cap got) \subseteq {Exists(dir)}>>,
          <<"run-directory-content",
              w.out = "ok" => {<<e.d, e.p>> : e \in got} = {<<e.d, e.p>> : e \in w.fs}>>,
          <<"backup-does-not-repeat-the-run",
              w.out = "ok" /\ running => \E e \in got : e.d = dir /\ e.p = BackupOf("a") /\ e \in w.fs>>,
          <<"results-not-written-by-this-run", w.out = "ok" => got = w.fs>> }
        \cup (IF ~r.cli THEN {} ELSE {
          <<"exit-status", (r.status = 0) <=> (w.out = "ok")>>,
          <<"status-zero-without-results", r.status = 0 /\ r.op.op # "foreign" => (running /\ Outputs(Inis, IF r.op.op = "run" THEN r.op.i ELSE b.cfg[r.op.d], r.k) \subseteq got)>>,
          <<"failure-without-message", r.status # 0 => r.stderr>> }))
Init == l = 1 /\ s = Start
Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ s' = [fs |-> After(Trace[l]).fs, cfg |-> After(Trace[l]).cfg]
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
