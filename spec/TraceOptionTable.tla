-------------------------- MODULE TraceOptionTable --------------------------
(* Each record is a parameter file and what it was read as:                    *)
(*   opts    the options that differ from the base file: section, name,        *)
(*           whether it is left out, its text (form), the value it has after   *)
(*           reading (val) and the kind of its entries                         *)
(*   dx      the spacing of the base file                                      *)
(*   others  whether all other settings are those of the base file             *)
EXTENDS OptionTable, TraceIO
VARIABLE l

Opt(e) == CHOOSE o \in Table : o.fmt = e.fmt /\ o.sec = e.sec /\ o.name = e.name
Kinds(type) == CASE type = "int" -> {"int", "none"}
                 [] type = "bool" -> {"bool"}
                 [] type = "level" -> {"str"}
                 [] OTHER -> {"int", "float", "none"}
Spacing(r) ==
    LET s == {i \in 1..Len(r.opts) : r.opts[i].sec = "model" /\ r.opts[i].name = "dx" /\ ~r.opts[i].absent}
    IN  IF s = {} THEN r.dx
        ELSE LET e == r.opts[CHOOSE i \in s : TRUE] IN
             IF OfType(e.form, "float") /\ ~IsList(e.form) THEN Values(e.form, "float").v ELSE r.dx
Want(e, dx) == IF e.absent THEN LeftOut(Opt(e), dx) ELSE Given(Opt(e), e.form)

Judge(r) ==
    LET dx == TLCEval(Spacing(r))
        want == TLCEval([i \in 1..Len(r.opts) |-> Want(r.opts[i], dx)])
        ok == \A i \in 1..Len(r.opts) : want[i].ok
    IN  IF ~r.ok
        THEN IF ok THEN {"rejected-a-valid-file"} ELSE {}
        ELSE IF ~ok THEN {"accepted-an-invalid-file"}
        ELSE Failing({
            <<"value-not-as-written-or-default", \A i \in 1..Len(r.opts) : Opt(r.opts[i]).at # <<>> => r.opts[i].val = want[i].val>>,
            <<"value-of-another-type", \A i \in 1..Len(r.opts) : Opt(r.opts[i]).at # <<>> =>
                 {r.opts[i].kinds[j] : j \in 1..Len(r.opts[i].kinds)} \subseteq Kinds(Opt(r.opts[i]).type)>>,
            <<"another-setting-changed", r.others>>})

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
