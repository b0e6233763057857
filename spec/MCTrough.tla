------------------------------ MODULE MCTrough -------------------------------
(* Cases for the conformance check of troughs, and facts about the geometry on a *)
(* grid of points.                                                               *)
EXTENDS Trough, SequencesExt, IOUtils, Json, TLC
CONSTANTS Alphas, BelowAlphas
As == Alphas \cup {-a : a \in BelowAlphas}
Dims == {<<6000, 3000, 1200>>, <<4000, 4000, 1000>>, <<2400, 7000, 2100>>, <<1000, 800, 500>>, <<1200, 900, 2000>>}
Structures == {"massive", "dip", "bulb", "bulb_sets", "random"}
Trends == {<<1000, 1000>>, <<600, 1400>>, <<1500, 700>>}
Angs == {<<0, 0>>, <<0, 25>>, <<70, 40>>, <<-35, 90>>, <<110, -20>>}
Places == {"cell", "between", "corner", "outside", "far", "top"}
Lags == {0, 150, 600}
Cases == {[dims |-> d, alpha |-> a, structure |-> s, trend |-> t, ang |-> g, place |-> p, lag |-> k, periodic |-> b, wide |-> w] :
             d \in Dims, a \in As, s \in Structures, t \in Trends, g \in Angs, p \in Places, k \in Lags, b \in BOOLEAN, w \in BOOLEAN}
(* random directions of the trough only where its outline does not depend on them *)
Useful(x) == /\ x.wide => x.dims[1] = x.dims[2] /\ x.structure = "massive" /\ x.alpha = 0
             /\ x.structure = "massive" \/ x.ang[2] # 0
             /\ x.structure \in {"massive", "dip"} \/ x.ang[2] >= 0
             /\ x.place \in {"far"} => x.periodic
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq({x \in Cases : Useful(x)}))
VARIABLES t, p
Init == /\ t \in [x : {0}, y : {500}, z : {2000}, a : {1500, 3000}, b : {1000, 2000}, c : {800}, alpha : As]
        /\ p \in {<<x, y, z>> : x \in {-3000, -1500, 0, 700, 2900}, y \in {-2000, 500, 1800}, z \in {1000, 1300, 1700, 2000, 2100}}
Next == UNCHANGED <<t, p>>
Spec == Init /\ [][Next]_<<t, p>>
Dom == [lx |-> 10000, ly |-> 8000, periodic |-> TRUE]
NoDom == [lx |-> 10000, ly |-> 8000, periodic |-> FALSE]
(* only the lower half; nothing beyond the half-axes; point symmetry; images *)
LowerHalf == p[3] > t.z + 1 => InTrough(t, NoDom, p) = "out"
WithinAxes == LET q == TroughUV(t, NoDom, p) IN InTrough(t, NoDom, p) = "in" => Abs(q.u) <= t.a /\ Abs(q.v) <= t.b /\ -q.dz <= t.c
Mirror(x) == <<2 * t.x - x[1], 2 * t.y - x[2], x[3]>>
Opp(a, b) == {a, b} # {"in", "out"}
Symmetric == Opp(InTrough(t, NoDom, p), InTrough(t, NoDom, Mirror(p)))
Images == \A i, j \in -2..2 : Opp(InTrough(t, Dom, p), InTrough([t EXCEPT !.x = @ + 10000 * i, !.y = @ + 8000 * j], Dom, p))
HalfTurn == Opp(InTrough(t, NoDom, p), InTrough([t EXCEPT !.alpha = @ + 180], NoDom, p))
QuarterTurn == Opp(InTrough(t, NoDom, p), InTrough([t EXCEPT !.alpha = @ + 90, !.a = t.b, !.b = t.a], NoDom, p))
=============================================================================
