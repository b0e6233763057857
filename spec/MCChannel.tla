------------------------------ MODULE MCChannel -------------------------------
(* Cases for the conformance check of channels, and the machine of excluded      *)
(* columns: cells are examined in any order; an examined cell may exclude other  *)
(* columns, but only such that no cell of the channel is lost.                   *)
EXTENDS Channel, SequencesExt, IOUtils, Json, TLC
CONSTANTS Angles, BelowAngles
Dims == {<<1200, 600>>, <<2500, 1000>>, <<4000, 1500>>}
Trends == {<<1000, 1000>>, <<500, 1200>>, <<1300, 800>>}
Dips == {0, 20, -35, 90, -8, 3}
Cases == {[dims |-> d, angle |-> a, structure |-> s, trend |-> t, dip |-> g, lag |-> k, eps |-> e, grid |-> r, no |-> n, again |-> b] :
             d \in Dims, a \in Angles \cup {-x : x \in BelowAngles}, s \in {"massive", "dip"}, t \in Trends, g \in Dips, k \in {0, 150, 400},
             e \in {0, 100, 300}, r \in {"fine", "coarse", "flat"}, n \in {1, 2}, b \in BOOLEAN}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
(* a channel along the x-axis over columns at y = 0..8, levels -3..0 *)
Half == 3                 \* half width
Depth == 3
Cols == 0..8
Lev == -Depth..1
In(y, z) == z <= 0 /\ z * Half * Half >= Depth * (y * y - Half * Half)
VARIABLES skip, seen
vars == <<skip, seen>>
Init == skip = {} /\ seen = {}
Examine(y, z) ==
    /\ <<y, z>> \notin {c[1] : c \in seen}
    /\ IF z > 0 \/ y \in skip
       THEN skip' = skip /\ seen' = seen \cup {<< <<y, z>>, FALSE>>}
       ELSE /\ skip' = skip \cup {v \in Cols : Abs(v - y) < y - 2 * Half} \cup (IF y > Half THEN {y} ELSE {})
            /\ seen' = seen \cup {<< <<y, z>>, In(y, z)>>}
Next == \E y \in {0, 2, 3, 4, 7, 8}, z \in {-3, -1, 0, 1} : Examine(y, z)
Spec == Init /\ [][Next]_vars
Bound == Cardinality(seen) <= 4
OrderDoesNotMatter == \A c \in seen : c[2] = In(c[1][1], c[1][2])
SkippedAreOutside == \A y \in skip : \A z \in Lev : ~In(y, z)
=============================================================================
