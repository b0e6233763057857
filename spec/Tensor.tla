------------------------------- MODULE Tensor --------------------------------
(* Conductivity tensor of a cell, relative to its conductivity, in 1/10000.        *)
(* Angles in 1/1000 degrees, anisotropy ratio in 1/10000.                          *)
EXTENDS Fix
M(a, b) == Div(a * b, 10000)
(* normal of the bedding plane: the vertical turned by the dip about the y-axis,   *)
(* then clockwise by the azimuth about the vertical                                *)
Normal(az, dp) == <<M(CosM(az), SinM(dp)), -M(SinM(az), SinM(dp)), CosM(dp)>>
InvRatio(a) == Div(100000000, a)
Delta(i, j) == IF i = j THEN 10000 ELSE 0
(* k (I - (1 - 1/a) w w^T) *)
Tensor(az, dp, a) == LET w == Normal(az, dp) g == 10000 - InvRatio(a)
                     IN  [i \in 1..3 |-> [j \in 1..3 |-> Delta(i, j) - M(g, M(w[i], w[j]))]]
(* the same as rotations of diag(1, 1, 1/a) *)
RotY(d) == <<<<CosM(d), 0, SinM(d)>>, <<0, 10000, 0>>, <<-SinM(d), 0, CosM(d)>>>>
RotZ(d) == <<<<CosM(d), SinM(d), 0>>, <<-SinM(d), CosM(d), 0>>, <<0, 0, 10000>>>>
Mul(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> M(A[i][1], B[1][j]) + M(A[i][2], B[2][j]) + M(A[i][3], B[3][j])]]
Tr(A) == [i \in 1..3 |-> [j \in 1..3 |-> A[j][i]]]
Diag(a) == <<<<10000, 0, 0>>, <<0, 10000, 0>>, <<0, 0, InvRatio(a)>>>>
Rotated(az, dp, a) == LET R == Mul(RotZ(az), RotY(dp)) IN Mul(Mul(R, Diag(a)), Tr(R))
Apply(A, v) == [i \in 1..3 |-> M(A[i][1], v[1]) + M(A[i][2], v[2]) + M(A[i][3], v[3])]
Scale(f, v) == [i \in 1..3 |-> M(f, v[i])]
Close(A, B, e) == \A i \in 1..3 : \A j \in 1..3 : Near(A[i][j], B[i][j], e)
CloseV(u, v, e) == \A i \in 1..3 : Near(u[i], v[i], e)
(* rounding: grows with 1/a if the ratio is below one *)
Err(a) == 8 + 4 * (InvRatio(a) \div 10000)
=============================================================================
