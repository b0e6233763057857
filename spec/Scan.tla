-------------------------------- MODULE Scan --------------------------------
(* Assignment of one column of cells.  Cells are elevations H..1, visited from    *)
(* the top.  A column's world is a sequence of strata, each [zmin, aes]; an       *)
(* element is [lo, hi, zmin, sheet, objs]: its boundaries in this column and the  *)
(* lowest elevation it reaches anywhere; an object is [lo, hi, zmin, zmax]: the   *)
(* interval it takes in this column (empty if lo > hi) and its overall extent.    *)
(* The scan remembers where the previous cell was found and never looks above.    *)
EXTENDS Integers, Sequences
VARIABLES w, z, si, ai, oi, res, pc
vars == <<w, z, si, ai, oi, res, pc>>
In(o, v) == o.lo <= v /\ v <= o.hi
NoUnit == <<0, 0, 0>>
(* The requirement: the first unit that holds the cell, in order of strata,       *)
(* elements, objects; an element's background comes after its objects.            *)
(* A unit is <<stratum, element, object>>, object 0 = background.                 *)
Holds(ww, u, v) ==
    LET e == ww[u[1]].aes[u[2]]
    IN  IF u[3] = 0 THEN ~e.sheet /\ e.lo <= v /\ v <= e.hi ELSE In(e.objs[u[3]], v)
Units(ww) == UNION {UNION {{<<s, a, o>> : o \in 0..Len(ww[s].aes[a].objs)} : a \in 1..Len(ww[s].aes)} : s \in 1..Len(ww)}
Rank(u) == IF u[3] = 0 THEN 99 ELSE u[3]
Before(u, t) == u[1] < t[1] \/ (u[1] = t[1] /\ (u[2] < t[2] \/ (u[2] = t[2] /\ Rank(u) < Rank(t))))
First(ww, v) == LET H == {u \in Units(ww) : Holds(ww, u, v)}
                IN  IF H = {} THEN NoUnit ELSE CHOOSE u \in H : \A t \in H : u = t \/ Before(u, t)
(* ------------------------------------------------------------- the scan *)
Stratum == w[si]
AE == w[si].aes[ai]
Obj == AE.objs[oi]
Start(worlds, H) == /\ w \in worlds /\ z = H /\ si = 1 /\ ai = 1 /\ oi = 1 /\ res = <<>> /\ pc = "stratum"
Found(u) == /\ res' = Append(res, u) /\ pc' = "next"
(* after a find, the next cell starts at the same stratum, element and object *)
NextCell == /\ pc = "next" /\ z > 1 /\ z' = z - 1 /\ pc' = "stratum" /\ UNCHANGED <<w, si, ai, oi, res>>
StratumStep == /\ pc = "stratum"
               /\ IF si > Len(w) THEN Found(NoUnit) /\ UNCHANGED <<w, z, si, ai, oi>>
                  ELSE IF z < Stratum.zmin THEN si' = si + 1 /\ ai' = 1 /\ oi' = 1 /\ UNCHANGED <<w, z, res, pc>>
                  ELSE pc' = "ae" /\ UNCHANGED <<w, z, si, ai, oi, res>>
AeStep == /\ pc = "ae"
          /\ IF ai > Len(Stratum.aes) THEN si' = si + 1 /\ ai' = 1 /\ oi' = 1 /\ pc' = "stratum" /\ UNCHANGED <<w, z, res>>
             ELSE IF z < AE.zmin THEN ai' = ai + 1 /\ oi' = 1 /\ UNCHANGED <<w, z, si, res, pc>>
             ELSE pc' = "obj" /\ UNCHANGED <<w, z, si, ai, oi, res>>
ObjStep == /\ pc = "obj"
           /\ IF oi > Len(AE.objs) \/ z > Obj.zmax THEN pc' = "bg" /\ UNCHANGED <<w, z, si, ai, oi, res>>
              ELSE IF z < Obj.zmin \/ ~In(Obj, z) THEN oi' = oi + 1 /\ UNCHANGED <<w, z, si, ai, res, pc>>
              ELSE Found(<<si, ai, oi>>) /\ UNCHANGED <<w, z, si, ai, oi>>
(* background: the object pointer may stay anywhere that skips no object of a lower cell; *)
(* the code goes back to where it started, here it stays (both are allowed)                *)
BgStep == /\ pc = "bg"
          /\ IF ~AE.sheet /\ AE.lo <= z /\ z <= AE.hi
             THEN Found(<<si, ai, 0>>) /\ oi' \in 1..oi /\ UNCHANGED <<w, z, si, ai>>
             ELSE ai' = ai + 1 /\ oi' = 1 /\ pc' = "ae" /\ UNCHANGED <<w, z, si, res>>
Next == NextCell \/ StratumStep \/ AeStep \/ ObjStep \/ BgStep
(* --------------------------------------------------- what makes it right *)
(* worlds the generator produces: objects sorted by their top, each one reaching *)
(* its top in every column it takes part in (or, sheets, stacked), and not        *)
(* starting below its element's lower boundary                                    *)
ObjOK(e, o) == /\ o.zmin <= o.zmax
               /\ (o.lo <= o.hi => /\ o.zmin <= o.lo /\ o.hi <= o.zmax /\ e.zmin <= o.lo
                                   /\ IF e.sheet THEN e.lo <= o.lo /\ o.hi <= e.hi ELSE o.hi = o.zmax /\ o.hi >= e.lo)
AeOK(e) == /\ e.lo <= e.hi /\ e.zmin <= e.lo
           /\ \A i \in 1..Len(e.objs) : ObjOK(e, e.objs[i])
           /\ \A i \in 1..(Len(e.objs) - 1) : e.objs[i].zmax >= e.objs[i + 1].zmax
           /\ e.sheet => \A i \in 1..(Len(e.objs) - 1) : e.objs[i].lo = e.objs[i + 1].hi
           /\ e.sheet => Len(e.objs) > 0 /\ e.objs[1].hi = e.hi /\ e.objs[Len(e.objs)].lo = e.lo
Flatten(ww) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN <<>> ELSE f(i - 1) \o ww[i].aes IN f(Len(ww))
WorldOK(ww, H) == LET es == Flatten(ww) IN
    /\ \A s \in 1..Len(ww) : \A a \in 1..Len(ww[s].aes) : AeOK(ww[s].aes[a]) /\ ww[s].zmin <= ww[s].aes[a].zmin
    /\ Len(es) > 0 /\ es[1].hi >= H /\ es[Len(es)].lo <= 1
    /\ \A i \in 1..(Len(es) - 1) : es[i].lo = es[i + 1].hi
TypeOK == pc \in {"stratum", "ae", "obj", "bg", "next"}
Right == pc = "next" => res[Len(res)] = First(w, z)
EveryCellAssigned == pc = "next" => res[Len(res)] # NoUnit
=============================================================================
