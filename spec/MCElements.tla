----------------------------- MODULE MCElements -----------------------------
EXTENDS Elements, SequencesExt, IOUtils, Json
CONSTANTS Tops, Bots, MaxAE
MCInit == Init([Cols -> Tops], [Cols -> Bots])
MCSpec == MCInit /\ [][Next]_vars
MCShapes == {[c \in Cols |-> 0], [c \in Cols |-> IF c = 1 THEN 2 ELSE -2]}
Bounded == Len(aes) < MaxAE
(* configurations to play into the code: relative probabilities of three element types (per mille), *)
(* which of them have rough contacts, avulsion, layout of the strata, which type has which geometry  *)
Probs == {<<1000, 0, 0>>, <<500, 500, 0>>, <<0, 700, 700>>, <<200, 300, 500>>}
Avuls == {[p |-> 0, lo |-> 5000, hi |-> 9000], [p |-> 1000, lo |-> 1000, hi |-> 3000], [p |-> 500, lo |-> 2000, hi |-> 4000],
          [p |-> 1000, lo |-> 7000, hi |-> 7000]}
Layouts == {"one", "flat", "rough", "pinched"}
Cases == {[probs |-> p, rough |-> SetToSeq(r), avul |-> a, layout |-> y, turn |-> t] :
             p \in Probs, r \in SUBSET (1..3), a \in Avuls, y \in Layouts, t \in 0..2}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
