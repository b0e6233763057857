------------------------------- MODULE Strata -------------------------------
(* Strata and their contacts.  A model lists its strata from the lowest to the  *)
(* highest; contact j (1..n-1) separates listed stratum j from j+1.             *)
(* Contacts: [kind |-> "flat" | "rough", z |-> elevation].                      *)
(* Numbers are fixed-point.  Boundaries are counted from the top: boundary 0 is *)
(* the domain top, boundary n the domain bottom, boundary i the lower one of    *)
(* the i-th stratum from the top.                                               *)
EXTENDS Integers, Sequences
Min(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Listed(n, i) == n + 1 - i                         \* position in the list of the i-th stratum from the top
(* elevation of boundary i in one column, given the free elevations (before    *)
(* limiting) F[1..n] of the boundaries 1..n in that column                      *)
RECURSIVE Boundary(_, _, _)
Boundary(top, F, i) == IF i = 0 THEN top ELSE Min(F[i], Boundary(top, F, i - 1))
(* free elevations in a column of a model with flat contacts only *)
FlatFree(m) == [i \in 1..m.n |-> IF i = m.n THEN m.z0 ELSE m.contacts[m.n - i].z]
(* strata that contain elevation z of a column with boundaries B[0..n], from the top;  *)
(* e widens (or, negative, narrows) the boundaries by the precision of the numbers     *)
Containing(B, n, z, e) == {i \in 1..n : B[i] - e <= z /\ z <= B[i - 1] + e}
(* a column is assigned consistently: stratum s contains the cell, none above it does *)
StratumOK(B, n, z, s, e) == /\ s \in Containing(B, n, z, e)
                            /\ \A i \in Containing(B, n, z, -e) : s <= i
=============================================================================
