----------------------------- MODULE TraceSheets ----------------------------
(* Record "sheet": conf (lens, f0, f1, structure, azim, dip lo/hi, dist, facies,    *)
(* m), z0, zt, aes ([num, first (number of its first object), top, bot]), cells:     *)
(* sequence of [p (coordinates relative to the domain centre, 1/1000), z (1/10000),  *)
(* x, y (column), ae, ha, f, az, dp (1/1000 degree)].                                *)
(* Record "bg": want (facies, azim, dip), cells: sequence of <<f, az, dp>>.           *)
EXTENDS Sheets, Layers, TraceIO
VARIABLE l
Rng(s) == {s[i] : i \in 1..Len(s)}
Values(a) == UNION {Rng(a[i]) : i \in 1..Len(a)}
MaxOf(S) == CHOOSE m \in S : \A n \in S : m >= n
MinOf(S) == CHOOSE m \in S : \A n \in S : m <= n
JudgeAE(r, a) ==
    LET cs == {i \in 1..Len(r.cells) : r.cells[i].ae = a.num}
        hi == MaxOf(Values(a.top))  lo == MinOf(Values(a.bot))
        T == Thickness(r.lens, r.f0, r.f1, r.z0, r.zt, (hi + lo) \div 2)
        e == IF r.tol = 0 THEN 0 ELSE 2 + Div(6 * (hi - lo), Max(T, 1000))
        no(i) == r.cells[i].ha - a.first + 1
        sheets == {r.cells[i].ha : i \in cs}
        mine(h) == {r.cells[i] : i \in {j \in cs : r.cells[j].ha = h}}
        pts(h) == {<<Div(Along(r.azim[1], r.dip[1], c.p[1], c.p[2], c.p[3]) * 1000, r.dist), c.f>> : c \in mine(h)}
    IN  Failing({
      <<"cell-in-wrong-sheet", \A i \in cs : no(i) \in SheetsAt(hi, T, r.cells[i].z, e)>>,
      <<"cell-outside-its-element", \A i \in cs : LET c == r.cells[i] IN
            a.bot[c.x][c.y] - r.tol <= c.z /\ c.z <= a.top[c.x][c.y] + r.tol>>,
      <<"massive-sheet-with-several-facies", r.structure = "massive" => \A h \in sheets : Cardinality({c.f : c \in mine(h)}) = 1>>,
      <<"facies-not-of-the-element", \A i \in cs : r.cells[i].f \in Rng(r.facies)>>,
      <<"layers-not-parallel-or-of-wrong-distance", r.structure = "dip" =>
            \A h \in sheets : LayersOK(pts(h), Len(r.facies), 6 + Div(4000, r.dist))>>,
      <<"angles-not-constant-in-sheet", \A h \in sheets : Cardinality({<<c.az, c.dp>> : c \in mine(h)}) = 1>>,
      <<"angles-out-of-range", \A i \in cs : /\ r.cells[i].az \in r.azim[1] * 1000..r.azim[2] * 1000
                                             /\ r.cells[i].dp \in r.dip[1] * 1000..r.dip[2] * 1000>> })
JudgeSheet(r) == UNION {JudgeAE(r, r.aes[i]) : i \in 1..Len(r.aes)}
                 \cup Failing({<<"cell-in-no-sheet-element", \A i \in 1..Len(r.cells) : r.cells[i].ae \in {r.aes[j].num : j \in 1..Len(r.aes)}>>})
JudgeBg(r) == Failing({
    <<"wrong-background-facies", \A i \in 1..Len(r.cells) : r.cells[i][1] = r.want[1]>>,
    <<"wrong-background-azimuth", \A i \in 1..Len(r.cells) : r.cells[i][2] = r.want[2]>>,
    <<"wrong-background-dip", \A i \in 1..Len(r.cells) : r.cells[i][3] = r.want[3]>>,
    <<"no-background-cells", Len(r.cells) > 0>> })
Judge(r) == IF r.out # "ok" THEN {"model-not-generated"} ELSE IF r.op = "sheet" THEN JudgeSheet(r) ELSE JudgeBg(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
