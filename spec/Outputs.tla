------------------------------- MODULE Outputs -------------------------------
(* Output formats: which files they write, and where in a file a cell is stored.   *)
(* A grid has n = <<nx, ny, nz>> cells of size d with its lower corner at o.       *)
(* Arrays are sequences with the last index running fastest.                       *)
EXTENDS Integers, Sequences, FiniteSets
Formats == {"mat", "py", "npz", "h5", "vtr", "mf", "mf6", "hgs"}
Arrays == {"mat", "py", "npz", "h5"}                \* formats that hold the arrays as they are
Flow == {"mf", "mf6"}
NeedsHydraulics == {"mf", "mf6", "hgs"}
Known(fs) == \A i \in 1..Len(fs) : fs[i] \in Formats
Rng(s) == {s[i] : i \in 1..Len(s)}
(* entries of the realization directory *)
Entry(f, name) == CASE f = "py" -> name \o ".pickle" [] f = "mat" -> name \o ".mat" [] f = "npz" -> name \o ".npz"
                    [] f = "h5" -> name \o ".h5" [] f = "vtr" -> name \o ".vtr" [] f = "mf" -> "MODFLOW"
                    [] f = "mf6" -> "mf6" [] f = "hgs" -> "HGS"
Entries(fs, name) == {Entry(f, name) : f \in Rng(fs)}
Inside(f, name) == CASE f = "mf" -> {name \o e : e \in {".nam", ".dis", ".bas", ".lpf", ".oc", ".pcg"}}
                     [] f = "mf6" -> {"mfsim.nam"} \cup {name \o e : e \in {".nam", ".dis", ".npf"}}
                     [] f = "hgs" -> {"ktensors.txt", "porosity.txt"}
                     [] OTHER -> {}
Cells(n) == {<<x, y, z>> : x \in 0..(n[1] - 1), y \in 0..(n[2] - 1), z \in 0..(n[3] - 1)}
Flat(shape, p) == (p[1] * shape[2] + p[2]) * shape[3] + p[3] + 1
(* shape of the array in the file and index of a cell in it; layers from the top *)
Shape(f, n) == CASE f = "mf" -> <<n[3], n[1], n[2]>> [] f = "mf6" -> <<n[3], n[2], n[1]>>
                 [] f = "vtr" -> <<n[3], n[2], n[1]>> [] OTHER -> n
Index(f, n, c) == CASE f = "mf" -> <<n[3] - 1 - c[3], c[1], c[2]>>
                    [] f = "mf6" -> <<n[3] - 1 - c[3], c[2], c[1]>>
                    [] f = "vtr" -> <<c[3], c[2], c[1]>>
                    [] OTHER -> c
Pos(f, n, c) == Flat(Shape(f, n), Index(f, n, c))
(* spacing along rows (delr: width of the columns) and columns (delc), elevations *)
Delr(f, d) == IF f = "mf" THEN d[2] ELSE d[1]
Delc(f, d) == IF f = "mf" THEN d[1] ELSE d[2]
Cols(f, n) == Shape(f, n)[3]
Rows(f, n) == Shape(f, n)[2]
Top(n, d, o) == o[3] + n[3] * d[3]
Bottom(n, d, o, layer) == Top(n, d, o) - (layer + 1) * d[3]
(* fixed heads: first and last column of every layer and row *)
Fixed(f, n, hin, hout) == {<<k, r, 0, hin>> : k \in 0..(n[3] - 1), r \in 0..(Rows(f, n) - 1)}
                          \cup {<<k, r, Cols(f, n) - 1, hout>> : k \in 0..(n[3] - 1), r \in 0..(Rows(f, n) - 1)}
=============================================================================
