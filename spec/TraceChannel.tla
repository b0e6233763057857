---------------------------- MODULE TraceChannel ------------------------------
(* Record: settings (width, depth, trend, z0, lz, structure, azim, dip (ranges), dist, ds, lag, *)
(* lagf, facies), chans ([pts, ztop]; channel i has number i-1, from the top), zs,   *)
(* cols: [p, cells: from the bottom <<ha, f, az, dp>>].                              *)
EXTENDS Channel, TraceIO
VARIABLE l
Rng(s) == {s[i] : i \in 1..Len(s)}
One(S) == Cardinality(S) <= 1
Shape(r, k) == LET c == r.chans[k]  f == SizeFactor(r.trend, r.z0, r.lz, c.ztop)
               IN  [ex |-> c.ex, pts |-> c.pts, ztop |-> c.ztop, width |-> Sized(r.width, f), depth |-> Sized(r.depth, f)]
Grid(r) == {<<i, z>> : i \in 1..Len(r.cols), z \in 1..Len(r.zs)}
V(r, g) == r.cols[g[1]].cells[g[2]]
Lagged(r, s, z) == IF r.lag = 0 THEN "out" ELSE LET d == z - (s.ztop - s.depth + r.lag) IN IF d < -2 THEN "in" ELSE IF d > 2 THEN "out" ELSE Edge
JudgeChannel(r, s, near, k) ==
    LET mine == {g \in Grid(r) : V(r, g)[1] = k - 1}
        lag == {g \in mine : Lagged(r, s, r.zs[g[2]]) = "in"}
        body == {g \in mine : Lagged(r, s, r.zs[g[2]]) = "out"}
        len == TLCEval(IF r.structure = "dip" THEN Lengths(s.pts) ELSE <<>>)
        flows == TLCEval(IF r.structure = "dip" THEN Flows(s.pts, r.ds) ELSE <<>>)
        clear(g) == LET n == near[g[1]] IN Sqrt(n.next) - Sqrt(n.d2) > 4
        cols == {g[1] : g \in body}
        e == 8 + Div(Div((40 + Len(s.pts) \div 2) * Abs(Sin(r.dip[1])), 100) * 10, r.dist)
    IN  Failing({
        <<"lag-cell-without-lag-facies", \A g \in lag : V(r, g)[2] = r.lagf /\ V(r, g)[3] = 0 /\ V(r, g)[4] = 0>>,
        <<"facies-not-of-the-element", \A g \in body : V(r, g)[2] \in Rng(r.facies)>>,
        <<"wrong-dip", One({V(r, g)[4] : g \in body}) /\ \A g \in body : V(r, g)[4] \in r.dip[1] * 1000..r.dip[2] * 1000>>,
        <<"several-facies-in-one-channel", r.structure = "massive" => One({V(r, g)[2] : g \in body})>>,
        <<"several-azimuths-in-massive-channel", r.structure = "massive" => One({V(r, g)[3] : g \in body})>>,
        <<"azimuth-outside-its-range", r.structure = "massive" => \A g \in body : V(r, g)[3] \in r.azim[1] * 1000..r.azim[2] * 1000>>,
        <<"azimuth-not-the-flow-direction", r.structure = "dip" =>
              \A i \in cols : LET v == Mean(s.pts, flows, r.cols[i].p, r.ds) IN \A g \in {h \in body : h[1] = i} : Directed(v, V(r, g)[3], 1)>>,
        <<"layers-wrong", r.structure = "dip" =>
              LayersOK({<<AlongChannel(len[near[g[1]].i], r.zs[g[2]] - s.ztop, r.dip[1], r.dist), V(r, g)[2]>> : g \in {h \in body : clear(h)}}, Len(r.facies), e)>> })
(* what the geometry says of every cell: [channel][column][level] *)
Judge(r) ==
    IF r.out # "ok" THEN {"model-not-generated"}
    ELSE LET n == Len(r.chans)
             sh == TLCEval([k \in 1..n |-> Shape(r, k)])
             near == TLCEval([k \in 1..n |-> [i \in 1..Len(r.cols) |-> Nearest(r.chans[k].pts, r.cols[i].p)]])
             dist == TLCEval([k \in 1..n |-> [i \in 1..Len(r.cols) |-> Sqrt(near[k][i].d2)]])
             st(k, g) == InChannelAt(sh[k], dist[k][g[1]], r.zs[g[2]])
             bad == Failing({
                <<"object-number-unknown", \A g \in Grid(r) : V(r, g)[1] \in -1..(n - 1)>>,
                <<"cell-outside-its-channel", \A g \in Grid(r) : LET h == V(r, g)[1] IN h \in 0..(n - 1) => st(h + 1, g) # "out">>,
                <<"cell-inside-a-channel-not-assigned-to-it", \A g \in Grid(r) : LET h == V(r, g)[1] IN
                      \A k \in 1..(IF h = -1 THEN n ELSE h) : st(k, g) # "in">> })
             (* ranges are drawn from for every channel anew *)
             drawn(j) == LET free == {g \in Grid(r) : LET h == V(r, g)[1] IN h # -1 /\ Lagged(r, sh[h + 1], r.zs[g[2]]) = "out"}
                         IN  \/ Cardinality({V(r, g)[1] : g \in free}) < 4
                             \/ Cardinality({V(r, g)[j] : g \in free}) > 1
         IN  IF bad # {} THEN bad
             ELSE UNION {JudgeChannel(r, sh[k], near[k], k) : k \in 1..n}
                  \cup Failing({<<"same-azimuth-for-all-channels", r.structure = "massive" /\ r.azim[1] < r.azim[2] => drawn(3)>>,
                                <<"same-dip-for-all-channels", r.structure = "massive" /\ r.dip[1] < r.dip[2] => drawn(4)>>})
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
