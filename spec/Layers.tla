------------------------------- MODULE Layers -------------------------------
(* Parallel layers of equal distance whose facies follow a cycle of m facies.    *)
(* A point at position q (in 1/1000 of the layer distance, along the direction   *)
(* in which layers are counted) lies in layer floor(q/1000 + s) for some shift s *)
(* of the whole set of layers, and carries facies (k0 + layer) mod m.            *)
EXTENDS Integers, FiniteSets
Frac(q) == q % 1000
Whole(q) == q \div 1000
(* points: set of <<q, f>>; points whose position is within e of a whole number   *)
(* cannot be told apart and are left out of the second part                       *)
Layer(p, k0, m) == (p[2] - k0 - Whole(p[1])) % m          \* 0 or 1
Clear(pts, e) == {p \in pts : Frac(p[1]) > e /\ Frac(p[1]) < 1000 - e}
LayersAs(pts, m, e, k0) ==
    LET c == Clear(pts, e)
        lo == {Frac(p[1]) : p \in {x \in c : Layer(x, k0, m) = 0}}
        hi == {Frac(p[1]) : p \in {x \in c : Layer(x, k0, m) = 1}}
    IN  /\ \A p \in c : Layer(p, k0, m) \in {0, 1}
        /\ \A a \in lo, b \in hi : a <= b + 2 * e
        /\ \A p \in pts \ c : Layer(p, k0, m) \in {0, 1, m - 1, 2 % m}
LayersOK(pts, m, e) == pts = {} \/ \E k0 \in 0..(m - 1) : LayersAs(pts, m, e, k0)
=============================================================================
