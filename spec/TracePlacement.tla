---------------------------- MODULE TracePlacement ---------------------------
(* Objects recorded from generated models; lengths in 1/1000, positions relative  *)
(* to the centre of the domain.                                                   *)
(* op "troughs": agg, depth, buffer, lx, ly, aes: [top, bot, objs: [x, y, z]]     *)
(*    (at least 25 troughs expected per level); "migrate": the same and step.     *)
(* op "manual": given, objs.                                                      *)
(* op "spread": counts (per level), lam, lx-, y-, xy-, alpha-bins.                *)
(* op "channels": angle, number, agg, depth, width, buffer, mig, trend, z0, lz,   *)
(*    ds, aes: [top, bot, mid, objs: [z, w, d, pts]].                             *)
(* op "meanders": the same, slightly curved.  op "starts": offsets and moves.     *)
(* op "ferguson": variance of the direction (1/1000 rad) about the flow and mean   *)
(*    (1/100000) of each complete centreline.                                     *)
EXTENDS Placement, TraceIO
VARIABLE l
Rng(s) == {s[q] : q \in 1..Len(s)}
(* elevations of a top-down list of objects without repetition *)
Zs(objs) == LET RECURSIVE f(_, _)
                f(q, acc) == IF q > Len(objs) THEN acc
                             ELSE f(q + 1, IF acc # <<>> /\ acc[Len(acc)] = objs[q].z THEN acc ELSE Append(acc, objs[q].z))
            IN  f(1, <<>>)
LevelsOk(kind, a, zs, agg, limit, tol) == LET f == First(kind) n == Len(zs) IN
    /\ \A q \in 1..n : Near(zs[q], a.top - (f + q - 1) * agg, tol)
    /\ \A q \in 1..n : zs[q] > limit - tol
    /\ a.top - (f + n) * agg <= limit + tol
SortedDown(objs) == \A q \in 1..Len(objs) - 1 : objs[q].z >= objs[q + 1].z
OnLevel(objs, z) == SelectSeq(objs, LAMBDA o : o.z = z)
Inside(o, r) == 2 * Abs(o.x) <= r.lx + 1 /\ 2 * Abs(o.y) <= r.ly + 1
JudgeTroughs(r) == LET aes == Rng(r.aes) IN Failing({
    <<"no-elements", aes # {}>>,
    <<"not-from-top", \A a \in aes : SortedDown(a.objs)>>,
    <<"levels", \A a \in aes : LevelsOk("trough", a, Zs(a.objs), r.agg, Limit(a.bot, r.depth, r.buffer), r.tol)>>,
    <<"outside-domain", \A a \in aes : \A o \in Rng(a.objs) : Inside(o, r)>>,
    <<"same-positions-on-two-levels", \A a \in aes : Cardinality({<<o.x, o.y>> : o \in Rng(a.objs)}) * 10 >= Len(a.objs) * 9>>,
    <<"number-per-level", \A a \in aes : LET zs == Zs(a.objs) IN \A q \in 1..Len(zs) :
        LET n == Len(OnLevel(a.objs, zs[q])) IN (n - r.lam) * (n - r.lam) <= 64 * r.lam>> })
(* shift of the k-th trough of each level from the k-th of the level above *)
Pairs(a) == LET zs == Zs(a.objs)
            IN  UNION {LET u == OnLevel(a.objs, zs[q]) d == OnLevel(a.objs, zs[q + 1])
                       IN  {<<d[k].x - u[k].x, d[k].y - u[k].y, q, k>> : k \in 1..Min(Len(u), Len(d))} : q \in 1..Len(zs) - 1}
RECURSIVE SumOf(_, _)
SumOf(s, b) == IF s = {} THEN 0 ELSE LET e == CHOOSE e \in s : TRUE IN e[b] + SumOf(s \ {e}, b)
(* k of n with probability p/1000, six standard deviations *)
Fraction(k, n, p) == LET e == k - Div(n * p, 1000) IN e * e <= 36 * Max(1, Div(n * p * (1000 - p), 1000000))
(* mean m, deviation s (0 or 1000): within 6 standard errors; and the spread *)
StepOk(ps, b, m, s) == LET n == Cardinality(ps) IN
    IF s = 0 THEN \A p \in ps : Near(p[b], m, 2)
    ELSE /\ LET e == SumOf(ps, b) - n * m IN (e \div 100) * (e \div 100) <= 36 * n * (s \div 100) * (s \div 100)
         /\ Fraction(Cardinality({p \in ps : Abs(p[b] - m) > s}), n, 317)
         /\ Fraction(Cardinality({p \in ps : 2 * Abs(p[b] - m) < s}), n, 383)
         /\ Fraction(Cardinality({p \in ps : p[b] > m}), n, 500)
JudgeMigrate(r) == LET aes == Rng(r.aes) IN Failing({
    <<"no-elements", aes # {}>>,
    <<"not-from-top", \A a \in aes : SortedDown(a.objs)>>,
    <<"levels", \A a \in aes : LevelsOk("trough", a, Zs(a.objs), r.agg, Limit(a.bot, r.depth, r.buffer), r.tol)>>,
    <<"outside-domain", \A a \in aes : LET zs == Zs(a.objs) IN zs # <<>> => \A o \in Rng(OnLevel(a.objs, zs[1])) : Inside(o, r)>>,
    <<"number-changes", \A a \in aes : LET zs == Zs(a.objs) IN \A q \in 2..Len(zs) : Len(OnLevel(a.objs, zs[q])) = Len(OnLevel(a.objs, zs[1]))>>,
    <<"step-x", \A a \in aes : StepOk(Pairs(a), 1, r.step[1], r.step[2])>>,
    <<"step-y", \A a \in aes : StepOk(Pairs(a), 2, r.step[3], r.step[4])>> })
JudgeManual(r) == Failing({
    <<"manual-positions", {<<o.x, o.y, o.z>> : o \in Rng(r.objs)} = Rng(r.given) /\ Len(r.objs) = Len(r.given)>>,
    <<"not-from-top", SortedDown(r.objs)>> })
JudgeSpread(r) == LET n == Len(r.counts) total == Sum(r.counts)
                      sq == Sum([q \in 1..n |-> ((1000 * r.counts[q] - r.lam) * (r.counts[q] * 1000 - r.lam)) \div 1000000])
                  IN Failing({
    <<"number-per-level", PoissonMean(n, total, r.lam)>>,
    \* the dispersion of the numbers is that of a Poisson process (six standard deviations, 0.5 rounding per level)
    <<"number-not-random", Near(sq * 1000, n * r.lam, 6 * r.disp + 500 * n)>>,
    <<"alpha-range", r.aout = 0>>,
    <<"alpha-spread", Even(r.abins)>>,
    <<"position-range", r.pout = 0>>,
    <<"position-spread", Even(r.xbins) /\ Even(r.ybins) /\ Even(r.xybins)>>,
    <<"position-and-angle-tied", Even(r.xabins)>> })
(* ---- channels *)
Al(p, r) == Along(p[1], p[2], r.angle)
Ac(p, r) == Across(p[1], p[2], r.angle)
InDomain(p, r) == 2 * Abs(p[1]) < r.lx - 4 /\ 2 * Abs(p[2]) < r.ly - 4
ChannelLevels(a, r) ==
    LET f == IF r.trend[1] = r.trend[2] THEN r.trend[1] ELSE SizeFactor(Div(a.top + a.bot, 2), r.z0, r.lz, r.trend[1], r.trend[2])
    IN  LevelsOk("channel", a, Zs(a.objs), r.agg, Limit(a.bot, Div(r.depth * f, 1000), r.buffer), r.tol)
SizeOk(o, r) == LET f == SizeFactor(o.z, r.z0, r.lz, r.trend[1], r.trend[2])
                IN  Near(o.w, Div(r.width * f, 1000), 4) /\ Near(o.d, Div(r.depth * f, 1000), 4)
Offset(o, r) == Ac(o.pts[1], r)
Straight(o, r) == \A q \in 1..Len(o.pts) : Near(Ac(o.pts[q], r), Offset(o, r), 8)
StepsOk(o, r) == \A q \in 1..Len(o.pts) - 1 : Near(Al(o.pts[q + 1], r) - Al(o.pts[q], r), r.ds, 6)
(* every cell close to the line lies beside a part of it *)
Covers(o, r) == LET s == Al(o.pts[1], r) e == Al(o.pts[Len(o.pts)], r) f == Offset(o, r) IN
    \A p \in Rng(r.cells) : 2 * Abs(Ac(p, r) - f) <= o.w => Al(p, r) >= s - r.ds \div 2 - 8 /\ Al(p, r) <= e + r.ds \div 2 + 8
Follows(a, r) == LET zs == Zs(a.objs) IN \A q \in 1..Len(zs) - 1 :
    LET u == OnLevel(a.objs, zs[q]) d == OnLevel(a.objs, zs[q + 1])
    IN  Len(u) = Len(d) => \A k \in 1..Len(u) : (u[k].pts # <<>> /\ d[k].pts # <<>>) =>
            Near(Offset(d[k], r), Offset(u[k], r), IF r.mig <= 0 THEN 8 ELSE r.mig + 8)
(* a line along the flow that misses the widened domain may have no points left *)
JudgeChannels(r) == LET aes == Rng(r.aes) os == UNION {Rng(a.objs) : a \in aes} full == {o \in os : o.pts # <<>>} IN Failing({
    <<"no-elements", aes # {}>>,
    <<"not-from-top", \A a \in aes : SortedDown(a.objs)>>,
    <<"levels", \A a \in aes : ChannelLevels(a, r)>>,
    <<"number-per-level", \A a \in aes : LET zs == Zs(a.objs) IN \A q \in 1..Len(zs) : Len(OnLevel(a.objs, zs[q])) = r.number>>,
    <<"size", \A o \in os : SizeOk(o, r)>>,
    <<"empty", r.mig <= 0 => full = os>>,
    <<"not-straight-along-flow", \A o \in full : Straight(o, r)>>,
    <<"steps", \A o \in full : StepsOk(o, r)>>,
    <<"start-outside-width", \A a \in aes : a.objs # <<>> => \A o \in Rng(OnLevel(a.objs, a.objs[1].z)) :
         o.pts # <<>> => 2 * Abs(Offset(o, r)) <= DomainWidth(r.lx, r.ly, r.angle) + 16>>,
    <<"does-not-cross-domain", \A o \in full : Covers(o, r)>>,
    <<"moves-between-levels", \A a \in aes : Follows(a, r)>> })
(* slightly curved: on average along the flow, never more than the step between points, ends outside *)
Mean(s) == Div(Sum(s), Len(s))
Through(o, r) ==
    LET n == Len(o.pts) IN
    /\ ~InDomain(o.pts[1], r) /\ ~InDomain(o.pts[n], r)
    /\ \A q \in 1..n - 1 : LET dx == Abs(o.pts[q + 1][1] - o.pts[q][1]) dy == Abs(o.pts[q + 1][2] - o.pts[q][2])
                           IN  (InDomain(o.pts[q], r) \/ InDomain(o.pts[q + 1], r)) => dx * dx + dy * dy <= (r.ds + 4) * (r.ds + 4)
    /\ Al(o.pts[1], r) < Al(o.pts[n], r)
JudgeMeanders(r) == LET os == UNION {Rng(a.objs) : a \in Rng(r.aes)} IN Failing({
    <<"no-channels", os # {}>>,
    <<"not-through-domain", \A o \in os : o.pts # <<>> => Through(o, r)>>,
    <<"direction", \A o \in os : o.pts # <<>> => Near(Mean(o.dirs), 0, r.spread)>>,
    <<"straight-although-noise", \A o \in os : Len(o.dirs) > 4 => Cardinality(Rng(o.dirs)) > 1>>,
    <<"two-identical", Cardinality({o.dirs : o \in os}) = Cardinality(os)>> })
JudgeStarts(r) == Failing({
    <<"start-range", r.out1 = 0>>, <<"start-spread", Even(r.starts)>>, <<"start-order", Even(r.order)>>,
    <<"move-range", r.out2 = 0>>, <<"move-spread", Even(r.moves)>>,
    <<"start-and-move-tied", Even(r.both)>> })
(* Second-order autoregression of the direction with the three (h, k) pairs: stationary variance over the   *)
(* variance of the noise, less the linear interpolation between the steps, in 1/10                          *)
Gain == <<70, 107, 19>>
JudgeFerguson(r) == LET g == Gain[r.hk] IN Failing({
    <<"too-short", r.n > 500>>,
    <<"mean-direction", \A q \in 1..Len(r.means) : Near(r.means[q], 0, (2000 * r.eps) \div r.len + 5)>>,
    <<"meander-variance", 10 * r.var > 7 * ((g * r.eps * r.eps) \div 10) /\ 10 * r.var < 14 * ((g * r.eps * r.eps) \div 10)>> })
Judge(r) == IF r.out # "ok" THEN {"not-generated"}
            ELSE CASE r.op = "troughs" -> JudgeTroughs(r) [] r.op = "migrate" -> JudgeMigrate(r) [] r.op = "manual" -> JudgeManual(r)
                   [] r.op = "spread" -> JudgeSpread(r) [] r.op = "channels" -> JudgeChannels(r) [] r.op = "meanders" -> JudgeMeanders(r)
                   [] r.op = "starts" -> JudgeStarts(r) [] OTHER -> JudgeFerguson(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
