--------------------------- MODULE TraceOldFormat ----------------------------
(* Record: refused (the file uses a feature that no longer exists), old, new:      *)
(* outcomes of reading the old-format file and its translation: out, settings      *)
(* ("section.option=value" for the options both have), missing (sections of the    *)
(* one that the other has not), model (digests of the generated arrays).           *)
EXTENDS Integers, Sequences, TraceIO
VARIABLE l
Rng(s) == {s[i] : i \in 1..Len(s)}
Judge(r) ==
    IF r.refused THEN Failing({<<"removed-feature-ignored", r.old.out # "ok">>})
    ELSE IF r.new.out # "ok" THEN {"translation-not-accepted"}
    ELSE IF r.old.out # "ok" THEN {"old-file-not-accepted"}
    ELSE Failing({
        <<"settings-differ", Rng(r.old.settings) = Rng(r.new.settings)>>,
        <<"sections-differ", r.old.sections = r.new.sections>>,
        <<"model-not-generated", r.old.gen = "ok" /\ r.new.gen = "ok">>,
        <<"models-differ", r.old.model = r.new.model>> })
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
