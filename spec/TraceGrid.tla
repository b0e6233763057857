------------------------------ MODULE TraceGrid -----------------------------
(* Record: axes, mark (cell given by its centre in the parameter file), out,  *)
(* n (reported counts), xs (reported axis coordinates, 3 sequences),          *)
(* mesh (per axis: coordinates of all cells [x][y][z]), shapes, hits (cells   *)
(* in which the marked object was found).                                     *)
EXTENDS Grid, TraceIO
VARIABLE l
MeshOK(r, j) == LET a == r.axes[j] IN
    \A x \in 1..r.axes[1].n, y \in 1..r.axes[2].n, z \in 1..r.axes[3].n :
        LET i == CASE j = 1 -> x [] j = 2 -> y [] j = 3 -> z
            e == 2 * r.mesh[j][x][y][z] - Centre2(a, i - 1)
        IN  e \in -2..2
Judge(r) ==
    IF r.out # "ok" THEN {"valid-grid-refused"}
    ELSE LET shape == Shape(r.axes)
             same == \A k \in DOMAIN r.shapes : r.shapes[k] = shape \o (IF k = "ktensors" THEN <<3, 3>> ELSE <<>>)
         IN  Failing({
           <<"wrong-number-of-cells", r.n = shape>>,
           <<"wrong-cell-centres", \A j \in 1..3 : AxisOK(r.axes[j], r.xs[j])>>,
           <<"wrong-result-shape", same>>,
           <<"wrong-mesh-coordinates", r.n = shape /\ r.meshshape = <<shape, shape, shape>> => \A j \in 1..3 : MeshOK(r, j)>>,
           <<"wrong-mesh-shape", r.meshshape = <<shape, shape, shape>> >>,
           <<"result-not-indexed-by-position", same => r.hits = <<r.mark>> >> })
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
