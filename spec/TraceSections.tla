---------------------------- MODULE TraceSections ---------------------------
EXTENDS Sections, TraceIO
VARIABLE l
Rng(s) == {s[i] : i \in 1..Len(s)}
Judge(r) ==
    LET want == Outcome(r.decl, r.sec)
    IN  Failing({
          <<"accepted-what-must-be-rejected", r.out = "ok" => want.ok>>,
          <<"rejected-what-must-be-accepted", want.ok => r.out = "ok">>,
          <<"wrong-value-stored", r.out = "ok" /\ want.ok => r.got = want.val>>,
          <<"wrong-kind-of-error", r.out # "ok" /\ ~want.ok => r.out = want.val>>,
          <<"neighbour-option-affected", r.out = "ok" => r.second = "i5">>,
          <<"unknown-name-not-reported", MustWarn(r.decl, r.sec) \subseteq Rng(r.warned)>>,
          <<"known-name-reported", Rng(r.warned) \subseteq MayWarn(r.decl, r.sec)>> })
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
