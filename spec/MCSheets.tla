------------------------------ MODULE MCSheets ------------------------------
EXTENDS Sheets, FiniteSets, SequencesExt, IOUtils, Json, TLC
Lens == {-1, 3000, 5000, 7500, 12000}
Trends == {<<1000, 1000>>, <<500, 1500>>, <<2000, 1000>>}
Angles == {<<0, 0>>, <<0, 20>>, <<90, 35>>, <<-30, 60>>, <<200, 90>>, <<45, -25>>}
Dists == {200, 700, 2500}
Own == [f : BOOLEAN, a : BOOLEAN, d : BOOLEAN]
Sheet == {[op |-> "sheet", lens |-> n, trend |-> t, structure |-> s, ang |-> g, dist |-> d, rough |-> r] :
             n \in Lens, t \in Trends, s \in {"massive", "dip"}, g \in Angles, d \in Dists, r \in BOOLEAN}
Useful(x) == (x.structure = "massive" => x.dist = 200)
Bg == {[op |-> "bg", own |-> o, second |-> p, zero |-> z] : o \in Own, p \in Own, z \in BOOLEAN}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq({x \in Sheet : Useful(x)}) \o SetToSeq(Bg))
(* the sheets of an element: every elevation in one sheet, each sheet no thicker than T *)
VARIABLES hi, T
Init == hi \in {100, 57} /\ T \in {0, 7, 10, 30, 200}
Spec == Init /\ [][UNCHANGED <<hi, T>>]_<<hi, T>>
One == \A z \in 0..hi : Cardinality(SheetsAt(hi, T, z, 0)) = 1
Num(z) == CHOOSE k \in SheetsAt(hi, T, z, 0) : TRUE
Ordered == \A z \in 0..(hi - 1) : Num(z) \in {Num(z + 1), Num(z + 1) + 1}
Slices == T > 0 => \A z \in 0..hi : hi - Num(z) * T <= z /\ z <= hi - (Num(z) - 1) * T
Margin == \A z \in 0..hi : Num(z) \in SheetsAt(hi, T, z, 2)
=============================================================================
