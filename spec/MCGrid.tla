------------------------------- MODULE MCGrid -------------------------------
EXTENDS Grid, IOUtils, Json, SequencesExt, TLC
CONSTANTS Origins, Below, Sizes, Counts, Mix
Axes == {[o |-> o, d |-> d, n |-> n] : o \in Origins \cup {-b : b \in Below}, d \in Sizes, n \in Counts}
AxisSeq == SetToSeq(Axes)
L == Len(AxisSeq)
Case(i, k) == LET g == <<AxisSeq[i], AxisSeq[((i + 7 * k + 3) % L) + 1], AxisSeq[((3 * i + 11 * k) % L) + 1]>>
              IN  [axes |-> g, mark |-> <<(i + k) % g[1].n, (i \div 2 + k) % g[2].n, (i \div 3 + 2 * k) % g[3].n>>]
Cases == {Case(i, k) : i \in 1..L, k \in 0..Mix}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE case
Init == case \in Cases
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
(* the cells tile the extent: they follow each other, start at the origin, end at its end,  *)
(* and every point off the faces lies in exactly one                                         *)
Tiles == \A j \in 1..3 : LET a == case.axes[j] IN
    /\ Low(a, 0) = a.o /\ High(a, a.n - 1) = a.o + Extent(a)
    /\ \A i \in Cells(a) : i + 1 \in Cells(a) => High(a, i) = Low(a, i + 1)
    /\ \A i \in Cells(a) : Holding2(a, Centre2(a, i)) = {i}
CentresInside == \A j \in 1..3 : LET a == case.axes[j] IN
    \A i \in Cells(a) : 2 * a.o < Centre2(a, i) /\ Centre2(a, i) < 2 * (a.o + Extent(a))
=============================================================================
