----------------------------- MODULE TraceStrata ----------------------------
(* Record: m (model: n, z0, top, contacts with kind, z, sd), kinds, zs (cell   *)
(* elevations), tol, names / bgs / own (expected by list position), strata     *)
(* (from the top: name, top, bot [x][y], bg, types), cells [x][y][z] =         *)
(* <<stratum index, facies, azimuth, dip>>.                                    *)
EXTENDS Strata, TraceIO
VARIABLE l
Cols(a) == {<<x, y>> : x \in 1..Len(a), y \in 1..Len(a[1])}
At(a, c) == a[c[1]][c[2]]
RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
RECURSIVE Flatten(_, _)
Flatten(a, i) == IF i = 0 THEN <<>> ELSE Flatten(a, i - 1) \o a[i]
Values(a) == Flatten(a, Len(a))
MeanDev(a, z) == LET v == Values(a) d == [i \in 1..Len(v) |-> v[i] - z] IN SumTo(d, Len(d)) \div Len(d)

BoundOK(r, i) ==                      \* lower boundary of the i-th stratum from the top
    LET m == r.m  s == r.strata[i]  cols == Cols(s.bot) IN
    IF i = m.n \/ m.contacts[m.n - i].kind = "flat" \/ m.contacts[m.n - i].sd = 0
    THEN LET z == IF i = m.n THEN m.z0 ELSE m.contacts[m.n - i].z
         IN  \A c \in cols : Abs(At(s.bot, c) - Min(z, At(s.top, c))) <= r.tol
    ELSE LET q == m.contacts[m.n - i]
             free == \A c \in cols : At(s.bot, c) < At(s.top, c)
         IN  /\ \A c \in cols : At(s.bot, c) <= At(s.top, c)
             /\ MeanDev(s.bot, q.z) <= 2
             /\ \A c \in cols : At(s.bot, c) <= q.z + 8 * q.sd
             /\ \A c \in cols : At(s.bot, c) >= Min(q.z, At(s.top, c)) - 8 * q.sd
             /\ free => /\ MeanDev(s.bot, q.z) >= -2
                        /\ \E c, d \in cols : At(s.bot, c) # At(s.bot, d)
Cells(r) == {<<x, y, z>> : x \in 1..Len(r.cells), y \in 1..Len(r.cells[1]), z \in 1..Len(r.zs)}
CellOK(r, c) ==
    LET v == r.cells[c[1]][c[2]][c[3]]
        B == [i \in 0..r.m.n |-> IF i = 0 THEN At(r.strata[1].top, c) ELSE At(r.strata[i].bot, c)]
    IN  v[1] + 1 \in 1..r.m.n /\ StratumOK(B, r.m.n, r.zs[c[3]], v[1] + 1, r.tol)
Expect(r, i) == LET j == Listed(r.m.n, i) IN IF r.kinds[j] = "stratum" THEN r.bgs[j] ELSE r.own[j]
ValueOK(r, c) == LET v == r.cells[c[1]][c[2]][c[3]]
                 IN  v[1] + 1 \in 1..r.m.n => <<v[2], v[3], v[4]>> = Expect(r, v[1] + 1)
(* Record "settings": listed (by list position: types, probs, mus and avul in 1/10, avulp), strata (from the top):     *)
(* name, types, levels (1/100, from the stratum's top).  Every stratum is 400 high, so that the mean thickness tells    *)
(* which setting it followed: the lowest element is cut off and left out.                                               *)
SSum(s) == SumTo(s, Len(s))
Pos(q, v) == CHOOSE k \in 1..Len(q) : q[k] = v
Known(s, t) == \E k \in 1..Len(s.types) : s.types[k] = t /\ s.probs[k] > 0
MeanDrop(s) == IF s.avulp = 1000 THEN 5 * (s.avul[1] + s.avul[2]) ELSE 0
DropsOK(s, v) ==
    LET n == Len(v.types) - 1
        want == [k \in 1..n |-> 10 * s.mus[Pos(s.types, v.types[k])] - MeanDrop(s)]
        got == [k \in 1..n |-> v.levels[k] - v.levels[k + 1]]
        devs == [k \in 1..n |-> got[k] - want[k]]
    IN  /\ n >= 10
        /\ \A k \in 1..n : Abs(devs[k]) <= 7 * s.mus[Pos(s.types, v.types[k])] + 60
        (* the mean of n thicknesses with 10% scatter (at most 1.35 each) and up to 0.3 from the avulsion range *)
        /\ Abs(SSum(devs)) <= 40000 /\ SSum(devs) * SSum(devs) <= 49 * 140 * 140 * n
JudgeSettings(r) ==
    IF r.out # "ok" THEN {"valid-strata-refused"}
    ELSE IF Len(r.strata) # r.n THEN {"wrong-number-of-strata"}
    ELSE LET s(i) == r.listed[Listed(r.n, i)] IN
         IF \E i \in 1..r.n : \E k \in 1..Len(r.strata[i].types) : ~Known(s(i), r.strata[i].types[k]) THEN {"element-types-of-other-stratum"}
         ELSE Failing({<<"element-settings-of-other-stratum", \A i \in 1..r.n : DropsOK(s(i), r.strata[i])>>})
JudgeBoundaries(r) ==
    IF r.out # "ok" THEN {"valid-strata-refused"}
    ELSE IF Len(r.strata) # r.m.n THEN {"wrong-number-of-strata"}
    ELSE LET n == r.m.n IN Failing({
      <<"strata-not-in-listed-order", \A i \in 1..n : r.strata[i].name = r.names[Listed(n, i)]>>,
      <<"top-not-at-domain-top", \A c \in Cols(r.strata[1].top) : Abs(At(r.strata[1].top, c) - r.m.top) <= r.tol>>,
      <<"gap-or-overlap-between-strata", \A i \in 1..(n - 1) : r.strata[i].bot = r.strata[i + 1].top>>,
      <<"boundaries-cross", \A i \in 1..n : \A c \in Cols(r.strata[i].bot) : At(r.strata[i].bot, c) <= At(r.strata[i].top, c)>>,
      <<"contact-at-wrong-elevation", \A i \in 1..n : BoundOK(r, i)>>,
      <<"background-of-other-stratum", \A i \in 1..n : r.strata[i].bg = r.bgs[Listed(n, i)]>>,
      <<"elements-of-other-stratum", \A i \in 1..n : \A k \in 1..Len(r.strata[i].types) : r.strata[i].types[k] = r.ae[Listed(n, i)]>>,
      <<"cell-in-wrong-stratum", \A c \in Cells(r) : CellOK(r, c)>>,
      <<"cell-with-values-of-other-stratum", \A c \in Cells(r) : ValueOK(r, c)>> })
Judge(r) == IF r.op = "settings" THEN JudgeSettings(r) ELSE JudgeBoundaries(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
