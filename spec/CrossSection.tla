---------------------------- MODULE CrossSection ----------------------------
(* Vertical cross sections through the model: which cells a panel shows.        *)
(* Lengths are fixed-point numbers in units of 1/10000, axes as in Grid.        *)
EXTENDS Grid, FiniteSets

(* cells of axis a at position p: one, two on a face between two cells *)
RowsAt(a, p) == {i \in Cells(a) : Low(a, i) <= p /\ p <= High(a, i)}
Inside(a, p) == a.o < p /\ p < a.o + Extent(a)
Outside(a, p) == p < a.o \/ p > a.o + Extent(a)          \* on the outer faces both answers are right

(* the positions of a request: the centre, if none is given (doubled, the centre may lie between units) *)
Positions2(a, req) == IF req.given THEN [i \in 1..Len(req.at) |-> 2 * req.at[i]] ELSE <<2 * a.o + Extent(a)>>
Rows2(a, p2) == {i \in Cells(a) : 2 * Low(a, i) <= p2 /\ p2 <= 2 * High(a, i)}
Inside2(a, p2) == 2 * a.o < p2 /\ p2 < 2 * (a.o + Extent(a))
Outside2(a, p2) == p2 < 2 * a.o \/ p2 > 2 * (a.o + Extent(a))

(* A panel across axis `c` (1: x, 2: y) at row r shows, with z upwards, the other horizontal axis `h`. *)
Other(c) == 3 - c
(* the field of the tests: every cell has its own number *)
Id(cell) == 25 * cell[1] + 5 * cell[2] + cell[3] + 1
CellOf(c, r, h, k) == IF c = 1 THEN <<r, h, k>> ELSE <<h, r, k>>
Shows(g, panel, c, r, log) ==
    /\ Len(panel.vals) = g[3].n
    /\ \A k \in 1..g[3].n : Len(panel.vals[k]) = g[Other(c)].n
    /\ \A k \in 1..g[3].n, h \in 1..g[Other(c)].n :
         LET v == panel.vals[k][h]
             e == Id(CellOf(c, r, h - 1, k - 1)) - 60
         IN  /\ IF ~log THEN v = 1000 * (e + 60)
                \* the base of the logarithm is not documented: decimal or natural
                ELSE v = 1000 * e \/ (v * 1000 - e * 2302585) \in -1000..1000
             /\ (2 * panel.us[k][h] - Centre2(g[Other(c)], h - 1)) \in -4..4
             /\ (2 * panel.ws[k][h] - Centre2(g[3], k - 1)) \in -4..4
AxisName == <<"x", "y", "z">>
Labelled(panel, c) == panel.xlabel = AxisName[Other(c)] /\ panel.ylabel = "z"
=============================================================================
