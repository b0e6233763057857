--------------------------- MODULE TraceParamFile ---------------------------
EXTENDS ParamFile, TraceIO
VARIABLE l
File(r) == [r.file EXCEPT !.secs = Rng(r.file.secs)]
Judge(r) ==
    LET f == File(r)
        ok == r.out = "ok"
        w == Resolved(f)
    IN  Failing({
          <<"accepted-what-must-be-refused", ok => Accept(f)>>,
          <<"refused-what-must-be-accepted", Accept(f) => ok>>,
          <<"written-although-refused", ~ok => ~r.written>> }
        \cup (IF ~(ok /\ Accept(f)) THEN {} ELSE {
          <<"facies-not-resolved", r.got.fac = w.fac>>,
          <<"altfacies-not-resolved", r.got.alt = w.alt>>,
          <<"strata-background-not-resolved", r.got.bgf = w.bgf>>,
          <<"element-background-not-resolved", r.got.ebg = w.ebg>>,
          <<"missing-background-angles-not-none", r.got.nanbg>>,
          <<"lag-facies-not-resolved", Erosive(f.geo) => r.got.lagf = w.lagf>>,
          <<"spacing-not-completed", r.got.d = w.d>>,
          <<"strata-contact-model-changed", r.got.cms = w.cms>>,
          <<"element-contact-model-changed", r.got.ecm = w.ecm>>,
          <<"other-element-changed", r.got.other>> }))
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
