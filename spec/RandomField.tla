----------------------------- MODULE RandomField -----------------------------
(* Random fields over a full grid or over the cells of a mask.                    *)
EXTENDS Fix, FiniteSets
(* smallest box around a set of cells <<x, y, z>> *)
MinOf(S) == CHOOSE m \in S : \A q \in S : m <= q
MaxOf(S) == CHOOSE m \in S : \A q \in S : m >= q
Range(cells, b) == LET S == {c[b] : c \in cells} IN MinOf(S)..MaxOf(S)
Box(cells) == {<<x, y, z>> : x \in Range(cells, 1), y \in Range(cells, 2), z \in Range(cells, 3)}
(* number of values of a field: one per selected cell, all cells without a mask *)
Values(n, two, mask) == IF mask = <<>> THEN n[1] * n[2] * (IF two THEN 1 ELSE n[3]) ELSE mask[1]
(* correlation (1/1000) at half, one and one and a half correlation lengths *)
Correlation(model) == IF model = "gaussian" THEN <<779, 368, 105>> ELSE <<607, 368, 223>>
=============================================================================
