------------------------------- MODULE Sheets -------------------------------
(* A sheet element between its boundaries is cut from its highest point hi in      *)
(* slices of thickness T (0: one slice).  Elevations in 1/10000.                    *)
EXTENDS Fix
(* numbers (from 1) of the sheets that may hold elevation z: the one above on a     *)
(* boundary; both next to a boundary if they cannot be told apart (e > 0)           *)
SheetsAt(hi, T, z, e) ==
    IF T = 0 THEN {1}
    ELSE LET k(v) == IF v <= 0 THEN 1 ELSE (v + T - 1) \div T IN k(hi - z - e)..k(hi - z + e)
(* thickness with a vertical trend: factor linear in z from f0 at the domain bottom  *)
(* to f1 at its top, taken at mid (factors in 1/1000)                                *)
Trend(f0, f1, z0, zt, z) == f0 + Div((f1 - f0) * ((z - z0) \div 10), (zt - z0) \div 10)
Thickness(lens, f0, f1, z0, zt, mid) == IF lens < 0 THEN 0 ELSE Div(lens * Trend(f0, f1, z0, zt, mid), 1000)
(* position along the upward normal of layers with the given dip and azimuth,        *)
(* lengths in 1/1000; the normal is (-sin(dip) cos(azim), sin(dip) sin(azim), cos(dip)) *)
Along(azim, dip, x, y, z) ==
    Div((Div(y * Sin(azim), 1000) - Div(x * Cos(azim), 1000)) * Sin(dip), 100000) + Div(z * Cos(dip), 10000)
=============================================================================
