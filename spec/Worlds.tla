------------------------------- MODULE Worlds -------------------------------
(* The space of small worlds that is played into the code: which geometries the    *)
(* element types have, how strata and elements are bounded, and the domain.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, IOUtils, Json
Kinds == {"sheet", "lenses", "trough", "channel"}
Triples == {<<"sheet", "trough", "channel">>, <<"trough", "trough", "sheet">>, <<"channel", "lenses", "trough">>,
            <<"lenses", "channel", "channel">>, <<"trough", "lenses", "trough">>, <<"channel", "trough", "trough">>,
            <<"trough", "channel", "lenses">>, <<"sheet", "lenses", "channel">>}
Layouts == {"one", "two-flat", "two-rough", "three"}      \* strata and their contacts
Worlds == {[kinds |-> k, layout |-> y, rough |-> r, periodic |-> p, thick |-> h] :
              k \in Triples, y \in Layouts, r \in {"none", "some", "all"}, p \in BOOLEAN, h \in {"thin", "thick"}}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Worlds))
VARIABLE world
Init == world \in Worlds
Spec == Init /\ [][UNCHANGED world]_world
Covered == \A k \in Kinds : \E v \in Worlds : \E i \in 1..3 : v.kinds[i] = k
=============================================================================
