------------------------------ MODULE Placement ------------------------------
(* Placement of troughs and channels in an element.  Lengths in 1/1000.           *)
(* Elevations on which objects lie: from the mean top of the element downwards in *)
(* steps of the aggradation thickness, troughs starting on the top itself,        *)
(* channels one step below, as long as they stay above the limit.                 *)
EXTENDS Fix, FiniteSets
First(kind) == IF kind = "trough" THEN 0 ELSE 1
(* limit: highest bottom (troughs) or mean bottom (channels) plus part of the depth *)
Limit(bottom, depth, buffer) == bottom + Div(depth * buffer, 1000)
RECURSIVE LevelsFrom(_, _, _)
LevelsFrom(z, limit, agg) == IF z > limit THEN <<z>> \o LevelsFrom(z - agg, limit, agg) ELSE <<>>
Levels(kind, top, limit, agg) == LevelsFrom(top - First(kind) * agg, limit, agg)
(* linear size factor (1/1000) at elevation z: from f0 at the bottom to f1 at the top of the domain *)
SizeFactor(z, z0, lz, f0, f1) == f0 + Div((z - z0) * (f1 - f0), lz)
(* coordinates along and across a direction of whole degrees *)
Along(x, y, deg) == Rot(x, Cos(deg), y, Sin(deg))
Across(x, y, deg) == Rot(y, Cos(deg), -x, Sin(deg))
(* extent of the domain along and across a direction *)
DomainLength(lx, ly, deg) == Abs(Rot(lx, Cos(deg), 0, 0)) + Abs(Rot(0, 0, ly, Sin(deg)))
DomainWidth(lx, ly, deg) == Abs(Rot(0, 0, lx, Sin(deg))) + Abs(Rot(ly, Cos(deg), 0, 0))
(* Counts that should be equally likely: n draws in b bins, six standard deviations *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Even(bins) == LET n == Sum(bins) b == Len(bins)
              IN  \A q \in 1..b : (bins[q] * b - n) * (bins[q] * b - n) <= 36 * n * b
(* Poisson counts with expectation lam/1000: mean and dispersion within six standard deviations *)
PoissonMean(n, total, lam) == LET e == Div(n * lam, 1000) IN (total - e) * (total - e) <= 36 * Max(e, 1)
=============================================================================
