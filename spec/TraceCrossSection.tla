------------------------- MODULE TraceCrossSection --------------------------
EXTENDS CrossSection, TraceIO
VARIABLE l

(* Which panels have to be there: all inside positions, in order, first across y, *)
(* then across x; positions on an outer face may be shown or not.                *)
Wanted(r) ==
    LET ys == Positions2(r.axes[2], r.y)
        xs == Positions2(r.axes[1], r.x)
    IN  [i \in 1..Len(ys) |-> <<2, ys[i]>>] \o [i \in 1..Len(xs) |-> <<1, xs[i]>>]
Fits(r, want, panel) ==
    LET c == want[1]
    IN  \E row \in Rows2(r.axes[c], want[2]) : Shows(r.axes, panel, c, row, r.log) /\ Labelled(panel, c)
(* match the wanted positions i.. with the panels j.. *)
RECURSIVE Matches(_, _, _, _, _)
Matches(r, w, i, j, warned) ==
    IF i > Len(w) THEN j > Len(r.panels) /\ warned = r.warnings
    ELSE LET in == Inside2(r.axes[w[i][1]], w[i][2])
             out == Outside2(r.axes[w[i][1]], w[i][2])
         IN  \/ /\ ~out /\ j <= Len(r.panels) /\ Fits(r, w[i], r.panels[j])
                /\ Matches(r, w, i + 1, j + 1, warned)
             \/ /\ ~in /\ Matches(r, w, i + 1, j, warned + 1)
Judge(r) ==
    IF r.out # "ok" THEN {"crash"}
    ELSE Failing({
        <<"not-the-requested-cross-sections", Matches(r, Wanted(r), 1, 1, 0)>>,
        <<"limits-ignored", \A i \in 1..Len(r.panels) : r.lims => r.panels[i].limok>>,
        <<"colours-ignored", \A i \in 1..Len(r.panels) : r.cmap # "" => r.panels[i].cmap = r.cmap>>,
        <<"not-shown", r.shown>>,
        <<"field-changed", r.kept>>})

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
