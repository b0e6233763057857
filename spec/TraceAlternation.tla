--------------------------- MODULE TraceAlternation ---------------------------
(* Record: facies, alt, seqs (facies of the successive layers of objects), want   *)
(* ("all" if every alternative must have occurred), n (expected layers or 0).     *)
EXTENDS Alternation, TraceIO
VARIABLE l
Judge(r) ==
    IF r.out # "ok" THEN {"not-generated"}
    ELSE LET s == Rng(r.seqs) IN Failing({
        <<"facies-not-of-the-element", \A q \in s : Rng(q) \subseteq Rng(r.facies)>>,
        <<"successor-not-among-the-alternatives", \A q \in s : Walk(r, q)>>,
        <<"wrong-number-of-layers", r.n > 0 => \A q \in s : Len(q) = r.n>>,
        <<"nothing-observed", s # {}>>,
        <<"first-facies-never-occurs", r.want = "all" => {q[1] : q \in s} = Rng(r.facies)>>,
        <<"alternative-never-occurs", r.want = "all" => Steps(s) = AllSteps(r)>> })
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
