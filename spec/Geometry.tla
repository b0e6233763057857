------------------------------ MODULE Geometry ------------------------------
(* Which points lie in a geometrical object.  A predicate says "in", "out" or   *)
(* "edge": too close to the surface to be told with the precision of the numbers *)
EXTENDS Fix
Edge == "edge"
(* at or below the top of an object; its elevation is exact if the object says so (ex) *)
Exact(t) == "ex" \in DOMAIN t /\ t.ex
AboveTop(t, top, z) == z > top + (IF Exact(t) THEN 0 ELSE 1)
BelowTop(t, top, z) == IF Exact(t) THEN z <= top ELSE z < top - 1
(* nearest periodic image of a horizontal difference *)
RECURSIVE Wrap(_, _)
Wrap(d, l) == IF 2 * d > l THEN Wrap(d - l, l) ELSE IF 2 * d < -l THEN Wrap(d + l, l) ELSE d
(* a trough: [x, y, z, a, b, c, alpha] with half-axes a (along the flow), b, c (down);   *)
(* alpha in whole degrees, counter-clockwise; dom = [lx, ly, periodic]                    *)
TroughUV(t, dom, p) ==
    LET dx == IF dom.periodic THEN Wrap(p[1] - t.x, dom.lx) ELSE p[1] - t.x
        dy == IF dom.periodic THEN Wrap(p[2] - t.y, dom.ly) ELSE p[2] - t.y
    IN  [dx |-> dx, dy |-> dy, dz |-> p[3] - t.z,
         u |-> Rot(dx, Cos(t.alpha), dy, Sin(t.alpha)), v |-> Rot(dy, Cos(t.alpha), -dx, Sin(t.alpha))]
(* squared normalised distance in units of 1/4000000 (4000000 = on the ellipsoid) *)
NormSquare(t, q) ==
    IF Abs(q.u) > 2 * t.a \/ Abs(q.v) > 2 * t.b \/ Abs(q.dz) > 2 * t.c THEN 99000000
    ELSE LET U == Div(q.u * 2000, t.a) V == Div(q.v * 2000, t.b) W == Div(q.dz * 2000, t.c) IN U * U + V * V + W * W
(* bound for the error of NormSquare near the surface *)
NormErr(t) == 16000 * (2 + Div(2000, Min(t.a, Min(t.b, t.c))))
AmbiguousWrap(t, dom, p) == dom.periodic /\ (Abs(Abs(Wrap(p[1] - t.x, dom.lx)) * 2 - dom.lx) <= 2 \/ Abs(Abs(Wrap(p[2] - t.y, dom.ly)) * 2 - dom.ly) <= 2)
InTrough(t, dom, p) ==
    IF AboveTop(t, t.z, p[3]) THEN "out"
    ELSE LET q == TroughUV(t, dom, p)  s == NormSquare(t, q)  e == NormErr(t)
         IN  IF s > 4000000 + e THEN "out"
             ELSE IF s < 4000000 - e /\ BelowTop(t, t.z, p[3]) THEN "in" ELSE Edge
(* a channel: [pts (sequence of <<x, y>>), width, depth, ztop] *)
Dist2(pts, p) == LET RECURSIVE f(_, _)
                     f(i, m) == IF i = 0 THEN m
                                ELSE LET dx == p[1] - pts[i][1] dy == p[2] - pts[i][2]
                                         d == IF Abs(dx) > 30000 \/ Abs(dy) > 30000 THEN 2000000000 ELSE dx * dx + dy * dy
                                     IN  f(i - 1, IF d < m THEN d ELSE m)
                 IN  f(Len(pts), 2000000000)
CentreDist(pts, p) == Sqrt(Dist2(pts, p))
(* given the distance d to the centreline *)
InChannelAt(c, d, z) ==
    IF AboveTop(c, c.ztop, z) \/ z < c.ztop - c.depth - 1 THEN "out"
    ELSE LET t == Div(d * 2000, c.width)        \* 1000: at half the width
         IN  IF t > 1100 THEN "out"
             ELSE LET floor == c.ztop - c.depth + Div(Div(t * t, 100) * c.depth, 10000)
                      e == 3 + Div(c.depth * (3 + 2 * Div(3000, c.width)), 500)
                  IN  IF z < floor - e THEN "out" ELSE IF z > floor + e /\ BelowTop(c, c.ztop, z) THEN "in" ELSE Edge
InChannel(c, p) == InChannelAt(c, CentreDist(c.pts, p), p[3])
(* between two boundaries of a column *)
Between(lo, hi, z, e) == IF z < lo - e \/ z > hi + e THEN "out" ELSE IF z >= lo + e /\ z <= hi - e THEN "in" ELSE Edge
=============================================================================
