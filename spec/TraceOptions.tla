---------------------------- MODULE TraceOptions ----------------------------
EXTENDS Options, TraceIO
VARIABLE l

Judge(r) ==
    LET want == Parse(r.shape, r.other, r.value)
    IN  IF r.out = "ok"
        THEN IF ~want.ok THEN {"accepted-value-of-wrong-shape"}
             ELSE IF r.result # want.val THEN {"wrong-value-stored"}
             ELSE {}
        ELSE IF want.ok THEN {"rejected-value-of-declared-shape"}
             ELSE IF r.out \notin {"ShapeError", "ValueError"} THEN {"rejected-with-unrelated-error"}
             ELSE {}

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
