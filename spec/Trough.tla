------------------------------- MODULE Trough -------------------------------
(* Inside of a trough: lag, and internal structure of the cells above it.         *)
(* A trough is as in Geometry; cells p; lengths in 1/1000, angles in 1/1000       *)
(* degrees if recorded, whole degrees if configured.                              *)
EXTENDS Geometry, Layers
(* size of a trough with its centre at z: factor linear in z over the domain *)
SizeFactor(tr, z0, lz, z) == tr[1] + Div((tr[2] - tr[1]) * (z - z0), lz)
Sized(v, f) == Div(v * f, 1000)
TroughAt(r, x, y, z) ==
    LET f == SizeFactor(r.trend, r.z0, r.lz, z)
    IN  [x |-> x, y |-> y, z |-> z, a |-> Sized(r.length, f) \div 2, b |-> Sized(r.width, f) \div 2, c |-> Sized(r.depth, f), alpha |-> r.alpha, ex |-> r.ex]
InLag(t, lag, z) == LET d == z - (t.z - t.c + lag) IN IF d < -2 THEN "in" ELSE IF d > 2 THEN "out" ELSE Edge
(* plane layers: position along (sin(dip) cos(azim), -sin(dip) sin(azim), cos(dip)) *)
AlongPlane(azim, dip, q) ==
    Div((Div(q.dx * Cos(azim), 1000) - Div(q.dy * Sin(azim), 1000)) * Sin(dip), 100000) + Div(q.dz * Cos(dip), 10000)
(* outward normal of the shell through a point of the trough: U, V, W as in NormSquare *)
ErrU(t) == 2 + Div(3000, Min(t.a, Min(t.b, t.c)))
ErrN(t) == 1 + Div(10000 * ErrU(t), Min(t.a, Min(t.b, t.c)))
Normal(t, q) ==
    LET A == Div(Div(q.u * 2000, t.a) * 10000, t.a)
        B == Div(Div(q.v * 2000, t.b) * 10000, t.b)
        C == Div(Div(q.dz * 2000, t.c) * 10000, t.c)
    IN  [x |-> Rot(A, Cos(t.alpha), -B, Sin(t.alpha)), y |-> Rot(A, Sin(t.alpha), B, Cos(t.alpha)), z |-> C]
(* the bedding plane with azimuth az and dip dp (normal (cos az sin dp, -sin az sin dp, cos dp)) *)
(* is tangential to the shell, its dip being limited to maxdip                                  *)
Hor(n) == Sqrt((n.x \div 4) * (n.x \div 4) + (n.y \div 4) * (n.y \div 4)) * 4
Tangential(t, q, az, dp, maxdip) ==
    IF q.dx = 0 /\ q.dy = 0 THEN az = 0 /\ dp = 0
    ELSE LET n == Normal(t, q)  e == ErrN(t)  h == Hor(n)  ad == Abs(dp)
             tol == 30000 * e + 3 * h + 3 * Abs(n.z)
             slope == h * CosM(ad) - Abs(n.z) * SinM(ad)        \* 0 for the exact dip, positive if dp is too small
         IN  /\ az \in -90000..90000
             /\ Abs(n.x * SinM(az) + n.y * CosM(az)) <= tol
             /\ ad <= maxdip * 1000
             /\ slope >= -tol
             /\ ad < maxdip * 1000 - 1 => slope <= tol
             /\ n.x > 3 * e => dp <= 0
             /\ n.x < -3 * e => dp >= 0
(* shells: position in 1/1000 of the shell distance, counted outwards *)
Shell(t, q, dist) == Div(Div(Sqrt(NormSquare(t, q)) * t.c, 20) * 10, dist)
ShellErr(t, dist) == 8 + Div(Div(ErrU(t) * 2 * t.c, 20) * 10, dist)
=============================================================================
