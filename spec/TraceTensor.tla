----------------------------- MODULE TraceTensor -----------------------------
(* Record: shape (of the tensor array minus that of the grid must be <<3, 3>>),    *)
(* cells: [az, dp (1/1000 degrees), a (1/10000), zero (conductivity is 0),         *)
(* t (tensor relative to the conductivity, 1/10000, by rows)].                     *)
EXTENDS Tensor, TraceIO
VARIABLE l
Cs(r) == {r.cells[q] : q \in 1..Len(r.cells)}
OfCell(c) == Tensor(c.az, c.dp, c.a)
Zero == [i \in 1..3 |-> [j \in 1..3 |-> 0]]
Judge(r) ==
    IF r.out # "ok" THEN {"not-generated"}
    ELSE Failing({
        <<"wrong-shape", r.shape = <<r.grid[1], r.grid[2], r.grid[3], 3, 3>> >>,
        <<"no-cells", Len(r.cells) > 0>>,
        <<"not-symmetric", \A c \in Cs(r) : \A i, j \in 1..3 : Near(c.t[i][j], c.t[j][i], 1)>>,
        <<"wrong-tensor", \A c \in Cs(r) : Close(c.t, IF c.zero THEN Zero ELSE OfCell(c), Err(c.a))>> })
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
