------------------------------ MODULE MCTensor -------------------------------
EXTENDS Tensor, SequencesExt, IOUtils, Json, TLC
CONSTANTS Azims, BelowAzims, Dips, BelowDips, Ratios
Az == Azims \cup {-x : x \in BelowAzims}
Dp == Dips \cup {-x : x \in BelowDips}
Cases == {[az |-> x, dp |-> y, a |-> r] : x \in Az, y \in Dp, r \in Ratios}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLES az, dp, a
Init == az \in Az /\ dp \in Dp /\ a \in Ratios
Spec == Init /\ [][UNCHANGED <<az, dp, a>>]_<<az, dp, a>>
T == Tensor(az, dp, a)
W == Normal(az, dp)
(* two directions within the bedding plane: its strike, and its line of dip *)
Strike == <<SinM(az), CosM(az), 0>>
DipLine == <<M(CosM(az), CosM(dp)), -M(SinM(az), CosM(dp)), -SinM(dp)>>
Symmetric == T = Tr(T)
SameAsRotated == Close(T, Rotated(az, dp, a), Err(a))
NormalValue == CloseV(Apply(T, W), Scale(InvRatio(a), W), Err(a))
PlaneValues == CloseV(Apply(T, Strike), Strike, Err(a)) /\ CloseV(Apply(T, DipLine), DipLine, Err(a))
Trace3 == Near(T[1][1] + T[2][2] + T[3][3], 20000 + InvRatio(a), Err(a))
Isotropic == a = 10000 => Close(T, Diag(a), 0)
Flat == dp = 0 => Close(T, Diag(a), 0)
HalfTurn == Close(T, Tensor(az + 180000, -dp, a), Err(a))
FullTurn == Close(T, Tensor(az + 360000, dp, a), 0)
=============================================================================
