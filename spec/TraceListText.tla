---------------------------- MODULE TraceListText ---------------------------
EXTENDS ListText, TraceIO, ParseHistory
VARIABLE l
Numbers == {"1", "11", "111", "1111", "11111", "111111", "2", "12", "21", "-3", "4.5", "-1", "1e2"}
Ints == {"1", "11", "111", "1111", "11111", "111111", "2", "12", "21", "-3", "-1"}
JudgeText(r) ==
    LET t == ReadText(r.chars)
        wantok == t.ok /\ (r.dtype = "int" => AllLeaves(t.val, Ints))
        want == IF IsList(t.val) THEN t.val ELSE List(<<t.val>>)   \* a single item of a list option
    IN  Failing({
          <<"malformed-list-accepted", r.out = "ok" => wantok>>,
          <<"well-formed-list-rejected", wantok => r.out = "ok">>,
          <<"list-structure-wrong", r.out = "ok" /\ wantok => r.result = want>>,
          <<"rejected-with-unrelated-error", r.out # "ok" /\ ~wantok => r.out = "ValueError">> })
JudgeParse(r) ==
    LET w == Want(r.sec)
    IN  Failing({
          <<"history-changes-acceptance", (r.out = "ok") = w.ok>>,
          <<"history-changes-given-list", r.out = "ok" /\ w.ok => r.o = w.o>>,
          <<"history-changes-expanded-value", r.out = "ok" /\ w.ok => r.v = w.v>>,
          <<"history-changes-referenced-shape", r.out = "ok" /\ w.ok => r.w = w.w>>,
          <<"history-changes-default", r.out = "ok" /\ w.ok => r.u = w.u>> })
Judge(r) == IF r.kind = "text" THEN JudgeText(r) ELSE JudgeParse(r)
TInit == l = 1 /\ Init
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l])) /\ UNCHANGED <<store, decls>>
TSpec == TInit /\ [][TNext]_<<l, store, decls>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
