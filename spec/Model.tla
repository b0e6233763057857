-------------------------------- MODULE Model --------------------------------
(* What the arrays of a finished model say about the cells, whatever the file.    *)
(* A file declares strata (from the top: [types, bg]; bg = <<facies, azim, dip>>)  *)
(* and element types [geo, str, facies, lag, bg, azim, dip, flow]: geometry,       *)
(* internal structure, facies of the objects, facies of the lag (-1: no lag), own  *)
(* background (None where the stratum's is taken), ranges of azimuth, dip and flow *)
(* direction.  A cell is <<stratum, element, object, type, facies, azim, dip>>;    *)
(* object -1 is the background of its element.  Angles in 1/1000 degrees.          *)
EXTENDS Integers, Sequences, FiniteSets
None == -999999
Rng(s) == {s[i] : i \in 1..Len(s)}
Within(v, r) == r[1] <= v /\ v <= r[2]
Tilted(t, az, dp) == /\ Within(dp, t.dip)
                     /\ IF t.geo = "channel" /\ t.str = "dip" THEN Within(az, <<-180000, 180000>>)
                        ELSE Within(az, <<t.azim[1] + t.flow[1], t.azim[2] + t.flow[2]>>)
Bulb(t, az, dp) == Within(az, <<-90000, 90000>>) /\ Within(dp, <<-t.dip[2], t.dip[2]>>)
Angles(t, az, dp) == CASE t.str \in {"massive", "dip"} -> Tilted(t, az, dp)
                       [] t.str \in {"bulb", "bulb_sets"} -> Bulb(t, az, dp)
                       [] OTHER -> Tilted(t, az, dp) \/ Bulb(t, az, dp)
Lag(t, v) == t.lag # -1 /\ v[5] = t.lag /\ v[6] = 0 /\ v[7] = 0
Own(a, b) == IF a = None THEN b ELSE a
Background(f, s, t) == [i \in 1..3 |-> Own(f.types[t].bg[i], f.strata[s].bg[i])]
(* one cell *)
Placed(f, v) == /\ v[1] + 1 \in 1..Len(f.strata) /\ v[2] >= 0 /\ v[4] + 1 \in 1..Len(f.types)
                /\ v[4] \in Rng(f.strata[v[1] + 1].types)
Filled(f, v) == LET t == f.types[v[4] + 1]
                IN  IF v[3] = -1 THEN t.geo # "sheet" /\ <<v[5], v[6], v[7]>> = Background(f, v[1] + 1, v[4] + 1)
                    ELSE Lag(t, v) \/ (v[5] \in Rng(t.facies) /\ Angles(t, v[6], v[7]))
(* all cells: what belongs to what *)
Fun(S, a, b) == Cardinality({a[v] : v \in S}) = Cardinality({<<a[v], b[v]>> : v \in S})
Col(S, i) == [v \in S |-> v[i]]
Nested(S) == LET O == {v \in S : v[3] # -1}
             IN  /\ Fun(S, Col(S, 2), [v \in S |-> <<v[1], v[4]>>])
                 /\ Fun(O, Col(O, 3), [v \in O |-> v[2]])
(* numbers ascend from the top of the model to its bottom *)
Ascending(P) == \A p, q \in P : p[1] < q[1] => p[2] <= q[2]
Numbered(S) == /\ Ascending({<<v[2], v[1]>> : v \in S})
               /\ Ascending({<<v[3], v[2]>> : v \in {w \in S : w[3] # -1}})
(* an object is of one piece: what its structure leaves constant *)
Constant(f, S, str, geo, b(_)) ==
    LET O == {v \in S : v[3] # -1 /\ LET t == f.types[v[4] + 1] IN t.str = str /\ t.geo \in geo /\ ~Lag(t, v)}
    IN  Fun(O, Col(O, 3), [v \in O |-> b(v)])
Uniform(f, S) == /\ Constant(f, S, "massive", {"sheet", "trough", "channel"}, LAMBDA v : <<v[5], v[6], v[7]>>)
                 /\ Constant(f, S, "dip", {"sheet", "trough"}, LAMBDA v : <<v[6], v[7]>>)
                 /\ Constant(f, S, "dip", {"channel"}, LAMBDA v : v[7])
                 /\ Constant(f, S, "bulb", {"trough"}, LAMBDA v : v[5])
(* one column, from the top: strata and elements follow each other, if all contacts are flat *)
Descends(c) == \A i \in 1..(Len(c) - 1) : c[i][1] <= c[i + 1][1] /\ c[i][2] <= c[i + 1][2]
Sound(f, S) == (\A v \in S : Placed(f, v)) /\ (\A v \in S : Filled(f, v)) /\ Nested(S) /\ Numbered(S) /\ Uniform(f, S)
=============================================================================
