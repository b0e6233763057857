----------------------------- MODULE Hydraulics ------------------------------
(* Hydraulic parameters of a cell.  Conductivities and porosities in 1/10000,     *)
(* trend factors in 1/1000 at both ends of the domain.  A trend is <<>> (none) or *)
(* <<first, last>>.                                                               *)
EXTENDS Fix
(* factor (in 1/10000) of layer i (from 0) out of n *)
Factor(t, i, n) == IF t = <<>> THEN 10000
                   ELSE IF n = 1 THEN t[1] * 10
                   ELSE t[1] * 10 + Div((t[2] - t[1]) * 10 * i, n - 1)
Times(v, f) == Div(v * f, 10000)
(* The generation of one parameter of one cell as a machine: the listed value, then *)
(* (only if internal) the element's trends and the global ones, one after the other. *)
Stages == <<"element-z", "element-x", "global-z", "global-x">>
Trended(v, i, k, nx, nz, el, gl) ==
    Times(Times(Times(Times(v, Factor(el.z, k, nz)), Factor(el.x, i, nx)), Factor(gl.z, k, nz)), Factor(gl.x, i, nx))
Value(listed, level, i, k, nx, nz, el, gl) == IF level = "internal" THEN Trended(listed, i, k, nx, nz, el, gl) ELSE listed
Tolerance(v) == 4 + Abs(v) \div 4000
(* which parameters a run produces *)
Geology == {"facies", "azim", "dip", "strata", "ae", "ha", "hat"}
Parameters(hyd, ani) == Geology \cup (IF hyd THEN {"k_iso", "poros"} \cup (IF ani THEN {"anirat", "ktensors"} ELSE {}) ELSE {})
=============================================================================
