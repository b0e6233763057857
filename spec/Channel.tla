------------------------------ MODULE Channel --------------------------------
(* Cells of a channel with a given centreline.  Lengths in 1/1000.               *)
EXTENDS Geometry, Layers
(* size factor at elevation z, constant outside the domain *)
SizeFactor(tr, z0, lz, z) == LET c == Max(0, Min(lz, z - z0)) IN tr[1] + Div((tr[2] - tr[1]) * c, lz)
Sized(v, f) == Div(v * f, 1000)
D2(a, b) == LET dx == a[1] - b[1] dy == a[2] - b[2]
            IN  IF Abs(dx) > 30000 \/ Abs(dy) > 30000 THEN 2000000000 ELSE dx * dx + dy * dy
(* nearest point of the centreline: squared distance, its index, and the squared distance of the next best *)
Nearest(pts, p) ==
    LET RECURSIVE f(_, _)
        f(i, m) == IF i > Len(pts) THEN m
                   ELSE LET d == D2(pts[i], p)
                        IN  f(i + 1, IF d < m.d2 THEN [d2 |-> d, i |-> i, next |-> m.d2] ELSE IF d < m.next THEN [m EXCEPT !.next = d] ELSE m)
    IN  f(1, [d2 |-> 2000000000, i |-> 0, next |-> 2000000000])
(* length of the centreline up to each of its points, in 1/10000 *)
Lengths(pts) ==
    LET RECURSIVE f(_, _)
        f(i, acc) == IF i > Len(pts) THEN acc
                     ELSE LET d == D2(pts[i], pts[i - 1])
                          IN f(i + 1, Append(acc, acc[Len(acc)] + (IF d < 20000000 THEN Sqrt(100 * d) ELSE 10 * Sqrt(d))))
    IN  IF Len(pts) = 0 THEN <<>> ELSE f(2, <<0>>)
(* flow direction at a point of the centreline: towards the next one, which is one step ds away; *)
(* not known at the last point and where points outside of the domain have been left out          *)
Known(pts, i, ds) == i < Len(pts) /\ Abs(Sqrt(D2(pts[i + 1], pts[i])) - ds) <= 5
Flow(pts, i) == <<pts[i + 1][1] - pts[i][1], pts[i + 1][2] - pts[i][2]>>
(* inverse-distance weighted mean of the known flow directions, up to a factor, and the weight of the unknown ones *)
Dist(a, b) == LET dx == a[1] - b[1] dy == a[2] - b[2]
              IN  IF Abs(dx) > 30000 \/ Abs(dy) > 30000 THEN 10 * Sqrt((dx \div 10) * (dx \div 10) + (dy \div 10) * (dy \div 10)) ELSE Sqrt(dx * dx + dy * dy)
Weight(d) == 1000000 \div (1 + d)
Flows(pts, ds) == [i \in 1..Len(pts) |-> IF Known(pts, i, ds) THEN Flow(pts, i) ELSE <<>>]
Mean(pts, flows, p, ds) ==
    LET RECURSIVE f(_, _, _, _)
        f(i, x, y, u) == IF i = 0 THEN <<x, y, u>>
                         ELSE LET w == Weight(Dist(pts[i], p))  v == flows[i]
                              IN  IF v # <<>> THEN f(i - 1, x + Div(v[1] * w, 1000), y + Div(v[2] * w, 1000), u)
                                  ELSE f(i - 1, x, y, u + Div(ds * w, 1000))
    IN  f(Len(pts), 0, 0, 0)
(* az (1/1000 degree) is the direction of v, up to about e degrees *)
Directed(v, az, e) ==
    LET s == 1 + Max(v[3], Max(Abs(v[1]), Abs(v[2]))) \div 20000          \* keep the products small
        x == v[1] \div s  y == v[2] \div s  u == v[3] \div s + 1
        c == CosM(az) d == SinM(az)
    IN  \/ Max(Abs(x), Abs(y)) < 3 * u
        \/ x * c + y * d >= 0 /\ Abs(x * d - y * c) <= (Max(Abs(x), Abs(y)) + 2) * (175 * e) + 10000 * u
(* position of a cell among the layers, in 1/1000 of their distance *)
AlongChannel(len, dz, dip, dist) ==
    LET s == Div(Div(len, 10) * Sin(dip), 10000) + Div(dz * Cos(dip), 10000) IN Div(s * 1000, dist)
=============================================================================
