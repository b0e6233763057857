------------------------------ MODULE MCLayers ------------------------------
(* Soundness of the layer criterion: every true layering passes, and a layering  *)
(* with a wrong distance or a reversed direction does not.                        *)
EXTENDS Layers, TLC
CONSTANTS M
VARIABLES s, k
Qs == {100 * i + 37 : i \in -20..30}
True0 == {<<q, (k + ((q + s) \div 1000)) % M>> : q \in Qs}
Wide == {<<q, (k + ((((q * 7) \div 10) + s) \div 1000)) % M>> : q \in Qs}
Thin == {<<q, (k + ((((q * 14) \div 10) + s) \div 1000)) % M>> : q \in Qs}
Back == {<<q, (k - ((q + s) \div 1000)) % M>> : q \in Qs}
One == {<<q, k % M>> : q \in Qs}
Double == {<<q, (k + (IF q + s >= 0 THEN (q + s) \div 1000 ELSE -((-(q + s)) \div 1000))) % M>> : q \in Qs}   \* middle layer twice as thick
Init == s \in {50 * i : i \in 0..19} /\ k \in 0..(M - 1)
Spec == Init /\ [][UNCHANGED <<s, k>>]_<<s, k>>
Accepts == LayersOK(True0, M, 10)
Rejects == ~LayersOK(Wide, M, 10) /\ ~LayersOK(Thin, M, 10) /\ ~LayersOK(Back, M, 10) /\ ~LayersOK(One, M, 10) /\ ~LayersOK(Double, M, 10)
=============================================================================
