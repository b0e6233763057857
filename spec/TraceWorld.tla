----------------------------- MODULE TraceWorld -----------------------------
(* Every cell belongs to the topmost unit that contains it (see Scan.tla for the    *)
(* scan that has to arrive there).  Record: axes, dom, strata (units from the top), *)
(* cells [x][y][z] = <<stratum, element, object, element type, facies>>, types      *)
(* (name -> [id, obj, bg]: type number, facies of its objects, background facies    *)
(* or -1 for the stratum's), bgs (stratum name -> facies), tol.  Facies 5 is that of   *)
(* lags, which belong to their objects.                                            *)
EXTENDS Geometry, TraceIO, FiniteSets
VARIABLE l
(* all units in order: objects of an element, then its background *)
RECURSIVE AeUnits(_, _, _)
AeUnits(s, a, j) == IF j = 0 THEN <<>> ELSE Append(AeUnits(s, a, j - 1), <<s, a, j>>)
RECURSIVE StUnits(_, _, _)
StUnits(r, s, a) == IF a = 0 THEN <<>>
                    ELSE LET ae == r.strata[s].aes[a]
                         IN  StUnits(r, s, a - 1) \o AeUnits(s, a, Len(ae.objs)) \o (IF r.types[ae.type].sheet THEN <<>> ELSE << <<s, a, 0>> >>)
RECURSIVE Units(_, _)
Units(r, s) == IF s = 0 THEN <<>> ELSE Units(r, s - 1) \o StUnits(r, s, Len(r.strata[s].aes))
AE(r, u) == r.strata[u[1]].aes[u[2]]
(* distance of the columns to the centrelines of the channels *)
Status(r, u, x, y, z) ==
    LET ae == AE(r, u)  p == <<r.axes[1][x], r.axes[2][y], r.axes[3][z]>>
    IN  IF u[3] = 0 THEN Between(ae.bot[x][y], ae.top[x][y], p[3], r.tol)
        ELSE LET o == ae.objs[u[3]]
             IN  CASE o.k = "sheet" -> Between(o.bot[x][y], o.top[x][y], p[3], r.tol)
                   [] o.k = "trough" -> IF AmbiguousWrap(o, r.dom, p) THEN Edge ELSE InTrough(o, r.dom, p)
                   [] o.k = "channel" -> IF AboveTop(o, o.ztop, p[3]) \/ p[3] < o.ztop - o.depth - 1 THEN "out" ELSE InChannel(o, p)
(* an object whose top lies below the element's lower boundary in this column      *)
(* (possible for channels over a rough contact) may be left out there              *)
Hidden(r, u, x, y) == u[3] # 0 /\ LET ae == AE(r, u)  o == ae.objs[u[3]] IN
    CASE o.k = "channel" -> o.ztop < ae.bot[x][y] [] o.k = "trough" -> o.z < ae.bot[x][y] [] OTHER -> FALSE
UnitOf(r, us, v) == {i \in 1..Len(us) : LET u == us[i] ae == AE(r, u) IN
                        /\ ae.num = v[2] /\ IF v[3] = -1 THEN u[3] = 0 ELSE u[3] # 0 /\ ae.objs[u[3]].num = v[3]}
Facies(r, u) == LET ae == AE(r, u)  t == r.types[ae.type]
                IN  IF u[3] # 0 THEN t.obj ELSE IF t.bg # -1 THEN t.bg ELSE r.bgs[r.strata[u[1]].name]
Grid(r) == {<<x, y, z>> : x \in 1..Len(r.cells), y \in 1..Len(r.cells[1]), z \in 1..Len(r.cells[1][1])}
JudgeCell(r, us, c) ==
    LET x == c[1] y == c[2] z == c[3]  v == r.cells[x][y][z]  is == UnitOf(r, us, v)
    IN  IF v[2] = -1 THEN {"cell-not-assigned"}
        ELSE IF Cardinality(is) # 1 THEN {"element-and-object-number-do-not-match"}
        ELSE LET i == CHOOSE k \in is : TRUE  u == us[i] IN Failing({
               <<"stratum-number-of-other-unit", v[1] + 1 = u[1]>>,
               <<"element-type-of-other-unit", v[4] = r.types[AE(r, u).type].id>>,
               <<"facies-of-other-unit", v[5] = Facies(r, u) \/ (u[3] # 0 /\ ~r.types[AE(r, u).type].sheet /\ v[5] = 5)>>,
               <<"cell-not-inside-its-unit", Status(r, u, x, y, z) # "out">>,
               <<"unit-above-contains-cell", \A k \in 1..(i - 1) : Status(r, us[k], x, y, z) # "in" \/ Hidden(r, us[k], x, y)>> })
Judge(r) == IF r.out # "ok" THEN {"world-not-generated"}
            ELSE LET us == Units(r, Len(r.strata))
                     objs == {i \in 1..Len(us) : us[i][3] # 0}
                 IN  Failing({<<"number-of-two-objects", Cardinality({AE(r, us[i]).objs[us[i][3]].num : i \in objs}) = Cardinality(objs)>>,
                              <<"number-of-two-elements", Cardinality({AE(r, us[i]).num : i \in 1..Len(us)}) = Cardinality({<<us[i][1], us[i][2]>> : i \in 1..Len(us)})>>})
                     \cup UNION {JudgeCell(r, us, c) : c \in Grid(r)}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
