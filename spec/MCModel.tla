------------------------------- MODULE MCModel -------------------------------
(* The way a column of a model comes about: elements from the top, objects in them, *)
(* cells from the top into the first unit that holds them.  Whatever is generated,  *)
(* the arrays have the properties of Model.tla.  Writes the features of files.      *)
EXTENDS Model, SequencesExt, IOUtils, Json, TLC
CONSTANTS K, MaxObj
B == BOOLEAN
Sheets == {[geo |-> "sheet", str |-> s, lens |-> l, alt |-> a, trend |-> t, hyt |-> h, rough |-> r, own |-> o, lag |-> FALSE, mig |-> FALSE, buf |-> FALSE] :
             s \in {"massive", "dip"}, l \in B, a \in B, t \in B, h \in B, r \in B, o \in B}
Erosive(g, strs) == {[geo |-> g, str |-> s, lens |-> FALSE, alt |-> a, trend |-> t, hyt |-> h, rough |-> r, own |-> o, lag |-> l, mig |-> m, buf |-> u] :
             s \in strs, a \in B, t \in B, h \in B, r \in B, o \in B, l \in B, m \in B, u \in B}
Troughs == Erosive("trough", {"massive", "dip", "bulb", "bulb_sets", "random"})
Channels == Erosive("channel", {"massive", "dip"})
Heads == {[op |-> "head", strata |-> n, rough |-> r, avul |-> a, het |-> h, ani |-> i, hyd |-> y, periodic |-> p, trends |-> t, numsim |-> k] :
             n \in 1..3, r \in B, a \in {0, 500, 1000}, h \in {"off", "facies", "internal"}, i \in B, y \in B, p \in B, t \in B, k \in 1..2}
Elems == {[op |-> "element"] @@ e : e \in Sheets \cup Troughs \cup Channels}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Heads) \o SetToSeq(Elems))
(* two types, two strata; type 0 of sheets, type 1 erosive with a lag *)
File == [strata |-> << [types |-> <<0, 1>>, bg |-> <<4, 4, 4>>], [types |-> <<1>>, bg |-> <<5, 5, 5>>] >>,
         types |-> << [geo |-> "sheet", str |-> "massive", facies |-> <<0, 1>>, lag |-> -1, bg |-> <<None, None, None>>, azim |-> <<0, 1>>, dip |-> <<0, 0>>, flow |-> <<0, 0>>],
                      [geo |-> "trough", str |-> "massive", facies |-> <<2>>, lag |-> 3, bg |-> <<6, None, None>>, azim |-> <<2, 3>>, dip |-> <<1, 1>>, flow |-> <<1, 1>>] >>]
VARIABLES z, els, cells, pc
vars == <<z, els, cells, pc>>
Init == z = K /\ els = <<>> /\ cells = <<>> /\ pc = "elements"
Num(e) == Len(e)
Stratum == IF els = <<>> THEN 1 ELSE els[Len(els)].s
NewElement == /\ pc = "elements" /\ z > 0
              /\ \E s \in Stratum..Len(File.strata), lo \in 1..z : \E t \in Rng(File.strata[s].types) :
                   els' = Append(els, [s |-> s, t |-> t, lo |-> lo, hi |-> z, objs |-> <<>>])
              /\ pc' = "objects" /\ UNCHANGED <<z, cells>>
Cur == els[Len(els)]
Geo(e) == File.types[e.t + 1].geo
Top(e) == IF e.objs = <<>> THEN e.hi ELSE IF Geo(e) = "sheet" THEN e.objs[Len(e.objs)].lo - 1 ELSE e.objs[Len(e.objs)].hi
Add(o) == els' = [els EXCEPT ![Len(els)].objs = Append(@, o)]
(* sheets are stacked; others lie anywhere below the previous top and may reach below the element *)
NewObject == /\ pc = "objects" /\ Len(Cur.objs) < MaxObj
             /\ LET t == File.types[Cur.t + 1]
                IN  \E f \in Rng(t.facies), az \in (t.azim[1] + t.flow[1])..(t.azim[2] + t.flow[2]) :
                      IF t.geo = "sheet" THEN \E lo \in Cur.lo..Top(Cur) : Add([lo |-> lo, hi |-> Top(Cur), f |-> f, az |-> az, lag |-> 0])
                      ELSE \E hi \in Cur.lo..Top(Cur) : \E lo \in 1..hi : \E lag \in 0..1 : Add([lo |-> lo, hi |-> hi, f |-> f, az |-> az, lag |-> lag])
             /\ UNCHANGED <<z, cells, pc>>
EndElement == /\ pc = "objects" /\ (Geo(Cur) = "sheet" => Cur.objs # <<>> /\ Cur.objs[Len(Cur.objs)].lo = Cur.lo)
              /\ z' = Cur.lo - 1 /\ pc' = (IF Cur.lo = 1 THEN "scan" ELSE "elements") /\ UNCHANGED <<els, cells>>
(* cells, from the top *)
Before(i) == LET RECURSIVE S(_)
                 S(j) == IF j = 0 THEN 0 ELSE Len(els[j].objs) + S(j - 1)
             IN  S(i - 1)
Hits(c) == {<<i, j>> \in (1..Len(els)) \X (1..MaxObj) : j <= Len(els[i].objs) /\ els[i].objs[j].lo <= c /\ c <= els[i].objs[j].hi}
           \cup {<<i, 99>> : i \in {k \in 1..Len(els) : Geo(els[k]) # "sheet" /\ els[k].lo <= c /\ c <= els[k].hi}}
Least(S) == CHOOSE u \in S : \A v \in S : u[1] < v[1] \/ (u[1] = v[1] /\ u[2] <= v[2])
Cell(c) == LET u == Least(Hits(c))  e == els[u[1]]
           IN  IF u[2] = 99 THEN <<e.s - 1, u[1] - 1, -1, e.t>> \o Background(File, e.s, e.t + 1)
               ELSE LET o == e.objs[u[2]] IN <<e.s - 1, u[1] - 1, Before(u[1]) + u[2] - 1, e.t>>
                      \o (IF c < o.lo + o.lag THEN <<File.types[e.t + 1].lag, 0, 0>> ELSE <<o.f, o.az, File.types[e.t + 1].dip[1]>>)
Scan == /\ pc = "scan" /\ Len(cells) < K /\ cells' = Append(cells, Cell(K - Len(cells))) /\ UNCHANGED <<z, els, pc>>
Next == NewElement \/ NewObject \/ EndElement \/ Scan
Spec == Init /\ [][Next]_vars
Assigned == pc = "scan" => \A c \in 1..K : Hits(c) # {}
Correct == Sound(File, Rng(cells)) /\ Descends(cells)
=============================================================================
