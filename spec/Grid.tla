-------------------------------- MODULE Grid --------------------------------
(* The model grid: an axis has origin o, cell size d and n cells (extent n*d). *)
(* Lengths are fixed-point numbers in units of 1/10000.                        *)
EXTENDS Integers, Sequences
Extent(a) == a.n * a.d
Low(a, i) == a.o + i * a.d                 \* lower face of cell i (from 0)
High(a, i) == a.o + (i + 1) * a.d
Centre2(a, i) == 2 * a.o + (2 * i + 1) * a.d     \* twice the centre of cell i
Cells(a) == 0..(a.n - 1)
(* the cells whose interior contains the point p (given as 2*p) *)
Holding2(a, p2) == {i \in Cells(a) : 2 * Low(a, i) < p2 /\ p2 < 2 * High(a, i)}
(* shape and coordinates a grid must report *)
Shape(g) == <<g[1].n, g[2].n, g[3].n>>
AxisOK(a, xs) == /\ Len(xs) = a.n
                 /\ \A i \in 1..Len(xs) : LET e == 2 * xs[i] - Centre2(a, i - 1) IN e \in -2..2
=============================================================================
