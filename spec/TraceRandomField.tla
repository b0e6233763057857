--------------------------- MODULE TraceRandomField --------------------------
(* op "support": n, two, mask (<<>> or <<number of cells>>), box (its shape),     *)
(*   shape (of the result), vals, boxsum (1/1000000 of the sum over the box per   *)
(*   value), twice (same state, 4 x variance: largest deviation from 2 x),        *)
(*   null (largest value without variance), varies (per axis of the box), lines   *)
(*   (per axis: largest line mean), agree (with the field of the whole box).      *)
(* op "cov": variance and correlations of many fields in 1/1000.                  *)
EXTENDS RandomField, TraceIO
VARIABLE l
Shape(r) == IF r.mask # <<>> THEN r.mask ELSE IF r.two THEN <<r.n[1], r.n[2]>> ELSE r.n
Cells3(r) == r.box[1] * r.box[2] * r.box[3]
JudgeSupport(r) == Failing({
    <<"support", r.shape = Shape(r)>>,
    <<"not-finite", r.finite>>,
    <<"box-mean-not-zero", Abs(r.boxsum) <= 5>>,
    <<"not-zero-without-variance", r.null = 0>>,
    <<"variance-scaling", r.twice <= 5>>,
    <<"constant-along-an-axis", \A b \in 1..3 : r.box[b] > 1 => r.varies[b]>>,
    <<"zero-mean-along-lines", \A b \in 1..3 : (r.box[b] > 1 /\ Cells3(r) > r.box[b]) => r.lines[b] > 0>>,
    <<"depends-on-the-mask-within-its-box", r.agree>>,
    <<"repeats", Cells3(r) > 1 => r.fresh>> })
(* the constant part that a field with zero mean lacks, on the grids used (1/1000) *)
Constant(r) == IF r.model = "gaussian" THEN IF Len(r.corr) = 2 THEN 19 ELSE 14 ELSE IF Len(r.corr) = 2 THEN 37 ELSE 64
JudgeCov(r) == LET w == Correlation(r.model) k == Constant(r) IN Failing({
    <<"variance", Near(r.var, 1000 - k, 80)>>,
    <<"mean", Abs(r.mean) <= 5>>,
    <<"correlation", \A b \in 1..Len(r.corr) : \A q \in 1..3 : Near(r.corr[b][q], w[q] - k, 75)>>,
    <<"not-symmetric", Near(r.skew, 0, 150)>> })
JudgeSurface(r) == Failing({
    <<"surface-mean", Abs(r.mean) <= 5>>,
    <<"surface-variance", Near(r.var, 1000, 200)>>,
    <<"surface-correlation-axis", r.diff[r.axis] * 2 < r.diff[3 - r.axis]>> })
Judge(r) == CASE r.op = "unknown" -> IF r.out = "ValueError" THEN {} ELSE {"unknown-model-accepted"}
              [] r.out # "ok" -> {"failed"}
              [] r.op = "support" -> JudgeSupport(r)
              [] r.op = "cov" -> JudgeCov(r)
              [] OTHER -> JudgeSurface(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
