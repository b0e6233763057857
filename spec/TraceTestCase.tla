--------------------------- MODULE TraceTestCase ---------------------------
(* One record per call: [hist, k, nb, op, out, status, stderr,                 *)
(*   changed: paths outside T that are new, gone or different (and the         *)
(*            directories that are new or gone),                               *)
(*   kept:    files of the caller's own run that are there afterwards,         *)
(*   left:    what is left in T,                                               *)
(*   seen:    files that were in the temporary directory when it was removed,  *)
(*            and whether they hold what an ordinary run of the file gives]    *)
EXTENDS TestCase, TraceIO
VARIABLES l
vars == <<l>>
Rng(q) == {q[i] : i \in 1..Len(q)}
Judge(r) ==
    LET want == Outcome(r.op)
        test == r.op.op = "test"
        seen == {x \in Rng(r.seen) : ~x.backup}
    IN  Failing({
          <<"refused-or-not-completed", want = "ok" => r.out = "ok">>,
          <<"completed-although-it-cannot", want = "fails" => r.out # "ok">>,
          <<"something-else-changed", Rng(r.changed) \ {<<e.d, e.p>> : e \in OwnResults \cup {E("W", "own/")}} = {}>>,
          <<"own-run-touched", test => Rng(r.changed) = {}>>,
          <<"own-run-without-results", ~test => Rng(r.kept) = {e.p : e \in OwnResults}>>,
          <<"something-left-behind", want = "ok" => r.left = <<>>>>,
          <<"results-not-complete", test /\ want = "ok" => Results(r.op.f) \subseteq {x.p : x \in seen}>>,
          <<"results-not-asked-for", test /\ want = "ok" => {x.p : x \in seen} \subseteq Results(r.op.f)>>,
          <<"not-what-an-ordinary-run-gives", test => \A x \in seen : x.same>> }
        \cup (IF r.op.via = "run" THEN {} ELSE {
          <<"exit-status", (r.status = 0) <=> (want = "ok")>>,
          <<"failure-without-message", r.status # 0 => r.stderr>> }))
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
