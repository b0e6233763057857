---------------------------- MODULE TraceTrough ------------------------------
(* Record: settings (length, width, depth, trend, z0, lz, dom, structure, alpha,     *)
(* alphas, azim, dip (ranges), dist, bdist, lag, lagf, facies), troughs (positions   *)
(* from the top; trough i has number i-1), cells: [p, ha, f, az, dp].                *)
EXTENDS Trough, TraceIO
VARIABLE l
Rng(s) == {s[i] : i \in 1..Len(s)}
Lagged(r, t, c) == IF r.lag = 0 THEN "out" ELSE InLag(t, r.lag, c.p[3])
(* c is a cell recorded as belonging to trough t *)
LagOK(r, c) == c.f = r.lagf /\ c.az = 0 /\ c.dp = 0
One(S) == Cardinality(S) <= 1
Body(r, t, cs) == {c \in cs : Lagged(r, t, c) = "out"}
SumRange(r) == (r.azim[1] + r.alphas[1]) * 1000..(r.azim[2] + r.alphas[2]) * 1000
Layered(r, t, cs, s) ==
    LET q(c) == TroughUV(t, r.dom, c.p)
        clear == {c \in cs : ~AmbiguousWrap(t, r.dom, c.p)}
    IN  IF s = "dip" THEN LayersOK({<<Div(AlongPlane(r.azim[1] + t.alpha, r.dip[1], q(c)) * 1000, r.dist), c.f>> : c \in clear}, Len(r.facies), 6 + Div(4000, r.dist))
        ELSE LayersOK({<<Shell(t, q(c), r.bdist), c.f>> : c \in clear}, Len(r.facies), ShellErr(t, r.bdist))
Structure(r, t, cs, s) == Failing({
    <<"facies-not-of-the-element", \A c \in cs : c.f \in Rng(r.facies)>>,
    <<"several-facies-in-one-trough", s \in {"massive", "bulb"} => One({c.f : c \in cs})>>,
    <<"angles-not-constant", s \in {"massive", "dip"} => One({<<c.az, c.dp>> : c \in cs})>>,
    <<"wrong-angles", s \in {"massive", "dip"} => \A c \in cs : c.az \in SumRange(r) /\ c.dp \in r.dip[1] * 1000..r.dip[2] * 1000>>,
    <<"layers-wrong", s \in {"dip", "bulb_sets"} => Layered(r, t, cs, s)>>,
    <<"bedding-not-tangential", s \in {"bulb", "bulb_sets"} =>
        \A c \in cs : AmbiguousWrap(t, r.dom, c.p) \/ Tangential(t, TroughUV(t, r.dom, c.p), c.az, c.dp, r.dip[2])>> })
JudgeTrough(r, t, cs) ==
    LET b == Body(r, t, cs)
    IN  Failing({<<"lag-cell-without-lag-facies", \A c \in cs : Lagged(r, t, c) = "in" => LagOK(r, c)>>})
        \cup (IF r.structure = "random"
              THEN IF \E s \in {"massive", "dip", "bulb", "bulb_sets"} : Structure(r, t, b, s) = {} THEN {} ELSE {"no-known-structure"}
              ELSE Structure(r, t, b, r.structure))
Status(r, t, c) == IF AmbiguousWrap(t, r.dom, c.p) THEN Edge ELSE InTrough(t, r.dom, c.p)
JudgeCells(r, ts) == Failing({
    <<"object-number-unknown", \A i \in 1..Len(r.cells) : r.cells[i].ha \in -1..(Len(ts) - 1)>>,
    <<"cell-outside-its-trough", \A i \in 1..Len(r.cells) : LET c == r.cells[i] IN c.ha # -1 => Status(r, ts[c.ha + 1], c) # "out">>,
    <<"cell-inside-a-trough-not-assigned-to-it", \A i \in 1..Len(r.cells) : LET c == r.cells[i] IN
          \A k \in 1..(IF c.ha = -1 THEN Len(ts) ELSE c.ha) : Status(r, ts[k], c) # "in">> })
Judge(r) ==
    IF r.out # "ok" THEN {"model-not-generated"}
    ELSE LET ts == [k \in 1..Len(r.troughs) |-> TroughAt(r, r.troughs[k][1], r.troughs[k][2], r.troughs[k][3])]
             bad == JudgeCells(r, ts)
             mine(k) == {r.cells[i] : i \in {j \in 1..Len(r.cells) : r.cells[j].ha = k - 1}}
             kinds(k) == {s \in {"massive", "dip", "bulb", "bulb_sets"} : Structure(r, ts[k], mine(k), s) = {}}
         IN  IF bad # {} THEN bad
             ELSE IF r.many     \* every structure occurs among them: missed by chance in one of 10^7 cases
             THEN LET ks == TLCEval([k \in 1..Len(ts) |-> kinds(k)]) IN Failing({
                    <<"no-known-structure", \A k \in 1..Len(ts) : ks[k] # {}>>,
                    <<"structure-never-chosen-at-random", \A s \in {"massive", "dip", "bulb", "bulb_sets"} : \E k \in 1..Len(ts) : ks[k] = {s}>> })
             ELSE UNION {JudgeTrough(r, ts[k], {r.cells[i] : i \in {j \in 1..Len(r.cells) : r.cells[j].ha = k - 1}}) : k \in 1..Len(ts)}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
