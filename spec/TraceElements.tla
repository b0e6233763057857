---------------------------- MODULE TraceElements ---------------------------
(* Record "model": probs, mus, rough (by type index 1..3), avul, strata (from   *)
(* the top): [top, bot, aes], aes: [type (index), num, top, bot, objs]; all     *)
(* elevations [x][y] in 1/10000.                                                *)
(* bounds: [rough, z] of the strata's lower contacts, from the top.             *)
(* Record "stat": one tall stratum with flat contacts: levels, types.           *)
EXTENDS Integers, Sequences, FiniteSets, TraceIO, SequencesExt
VARIABLE l
Abs(a) == IF a < 0 THEN -a ELSE a
Cols(a) == {<<x, y>> : x \in 1..Len(a), y \in 1..Len(a[1])}
At(a, c) == a[c[1]][c[2]]
Rng(s) == {s[i] : i \in 1..Len(s)}
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Flat(a) == FoldLeft(LAMBDA a1, b : a1 \o b, <<>>, a)
Mean(a) == LET v == Flat(a) IN Sum(v) \div Len(v)
Thick(s) == \E c \in Cols(s.top) : At(s.top, c) > At(s.bot, c)
UpperOf(s, i) == IF i = 1 THEN s.top ELSE s.aes[i - 1].bot
Free(s, i) == {c \in Cols(s.bot) : At(s.bot, c) < At(s.aes[i].bot, c) /\ At(s.aes[i].bot, c) < At(UpperOf(s, i), c)}
StackOK(s) == LET n == Len(s.aes) IN
    /\ n >= 1 => s.aes[1].top = s.top /\ s.aes[n].bot = s.bot
    /\ \A i \in 1..(n - 1) : s.aes[i].bot = s.aes[i + 1].top
OrderOK(s) == \A i \in 1..Len(s.aes) : \A c \in Cols(s.top) :
    At(s.bot, c) <= At(s.aes[i].bot, c) /\ At(s.aes[i].bot, c) <= At(s.aes[i].top, c) /\ At(s.aes[i].top, c) <= At(s.top, c)
(* generating the elements leaves the stratum's lower boundary (b: its contact) where it was placed *)
BoundOK(b, s) ==
    IF ~b.rough THEN \A c \in Cols(s.bot) : At(s.bot, c) = (IF b.z < At(s.top, c) THEN b.z ELSE At(s.top, c))
    ELSE /\ Mean(s.bot) <= b.z + 2
         /\ (\A c \in Cols(s.bot) : At(s.bot, c) < At(s.top, c)) => Mean(s.bot) >= b.z - 2
IsRough(r, t) == t \in Rng(r.rough)
(* the level at which the lower boundary of element i was placed, if it can be told: BAD otherwise *)
BAD == -2000000000
Level(r, s, i) ==
    IF i = 0 THEN Mean(s.top)
    ELSE IF Free(s, i) = {} THEN BAD
    ELSE IF ~IsRough(r, s.aes[i + 1].type) THEN At(s.aes[i].bot, CHOOSE c \in Free(s, i) : TRUE)
    ELSE IF Free(s, i) = Cols(s.bot) THEN Mean(s.aes[i].bot) ELSE BAD
Least(r, mu) == (mu * 35) \div 100 - (IF r.avul.p > 0 THEN r.avul.hi ELSE 0) - 3
Most(r, mu) == (mu * 165) \div 100 - (IF r.avul.p >= 1000 THEN r.avul.lo ELSE 0) + 3
ThicknessOK(r, s) == \A i \in 1..Len(s.aes) :
    LET n == Len(s.aes)  mu == r.mus[s.aes[i].type]  up == Level(r, s, i - 1)
        lo == IF i = n THEN Mean(s.bot) ELSE Level(r, s, i)
    IN  up # BAD /\ lo # BAD => /\ up - lo <= Most(r, mu)
                                /\ i < n => up - lo >= Least(r, mu)
ShapeOK(r, s) == \A i \in 1..(Len(s.aes) - 1) :
    IF IsRough(r, s.aes[i + 1].type)
    THEN Free(s, i) = Cols(s.bot) /\ Cardinality(Cols(s.bot)) > 1 => \E c, d \in Cols(s.bot) : At(s.aes[i].bot, c) # At(s.aes[i].bot, d)
    ELSE Cardinality({At(s.aes[i].bot, c) : c \in Free(s, i)}) <= 1
AllAes(r) == Flat([i \in 1..Len(r.strata) |-> r.strata[i].aes])
Counted(q) == q = [i \in 1..Len(q) |-> i - 1]
JudgeModel(r) == Failing({
    <<"gap-or-overlap-between-elements", \A i \in 1..Len(r.strata) : StackOK(r.strata[i])>>,
    <<"element-boundaries-cross-or-leave-stratum", \A i \in 1..Len(r.strata) : OrderOK(r.strata[i])>>,
    <<"stratum-boundary-moved", \A i \in 1..Len(r.strata) : BoundOK(r.bounds[i], r.strata[i])>>,
    <<"stratum-without-element", \A i \in 1..Len(r.strata) : Thick(r.strata[i]) => Len(r.strata[i].aes) >= 1>>,
    <<"element-type-with-zero-probability", \A a \in Rng(AllAes(r)) : a.type \in 1..3 /\ r.probs[a.type] > 0>>,
    <<"element-numbers-not-consecutive", Counted([i \in 1..Len(AllAes(r)) |-> AllAes(r)[i].num])>>,
    <<"object-numbers-not-consecutive", Counted(Flat([i \in 1..Len(AllAes(r)) |-> AllAes(r)[i].objs]))>>,
    <<"cell-with-object-number-of-other-element", \A q \in Rng(r.pairs) : \E a \in Rng(AllAes(r)) : a.num = q[1] /\ q[2] \in Rng(a.objs) \cup {-1}>>,
    <<"thickness-out-of-range", \A i \in 1..Len(r.strata) : ThicknessOK(r, r.strata[i])>>,
    <<"boundary-not-of-contact-model", \A i \in 1..Len(r.strata) : ShapeOK(r, r.strata[i])>> })

(* statistics over one tall stratum; six standard deviations, so a conforming tree passes with certainty for practical purposes *)
Sqrt(n) == LET RECURSIVE f(_, _)
               f(lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN f(m, hi) ELSE f(lo, m)
           IN  f(0, 46340)
Drops(r) == [i \in 1..(Len(r.levels) - 2) |-> r.levels[i] - r.levels[i + 1]]
CountOK(hits, n, perMille, slack) == Abs(hits * 1000 - n * perMille) <= 6 * Sqrt(n * perMille * (1000 - perMille) + 1) + 1000 * slack
(* per mille of the mean thickness of the element's type *)
Rel(r) == [i \in 1..Len(Drops(r)) |-> (Drops(r)[i] * 1000) \div r.mus[r.types[i]]]
JudgeStat(r) ==
    LET n == Len(Drops(r))  tot == Sum(r.probs)
        avulsed == Cardinality({i \in 1..n : Drops(r)[i] < r.mus[r.types[i]] - r.avul.lo \div 2})
        rel == Rel(r)  m == Sum(rel) \div n  var == Sum([i \in 1..n |-> (rel[i] - m) * (rel[i] - m)]) \div n
        kept == r.avul.p = 0
        ofType(t) == SelectSeq([i \in 1..n |-> <<r.types[i], rel[i]>>], LAMBDA q : q[1] = t)
    IN  Failing({
      <<"too-few-elements", n >= 100>>,
      <<"avulsion-not-with-its-probability", CountOK(avulsed, n, r.avul.p, 2)>>,
      <<"types-not-with-their-probability", \A t \in 1..3 :
            CountOK(Cardinality({i \in 1..Len(r.types) : r.types[i] = t}), Len(r.types), (r.probs[t] * 1000) \div tot, 2)>>,
      <<"mean-thickness-wrong", kept => m \in 960..1040>>,
      <<"mean-thickness-of-a-type-wrong", kept => \A t \in 1..3 :
            LET q == ofType(t)  k == Len(q)  dev == Sum([i \in 1..k |-> q[i][2] - 1000])
            IN  k >= 10 => Abs(dev) <= 40000 /\ dev * dev <= 49 * 101 * 101 * k + 4 * k * k>>,
      <<"scatter-of-thickness-wrong", kept => var \in 60 * 60..140 * 140>> })
Judge(r) == IF r.out # "ok" THEN {"valid-strata-refused"} ELSE IF r.op = "model" THEN JudgeModel(r) ELSE JudgeStat(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
