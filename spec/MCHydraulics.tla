---------------------------- MODULE MCHydraulics -----------------------------
(* Cases for the conformance check, and facts about trends on all small grids. *)
EXTENDS Hydraulics, FiniteSets, SequencesExt, IOUtils, Json, TLC
CONSTANTS MaxN, Ends
Trends == {"ekz", "ekx", "enz", "enx", "gkz", "gkx", "gnz", "gnx"}
Triples == {<<"sheet", "lenses", "trough">>, <<"trough", "trough", "sheet">>, <<"channel", "lenses", "trough">>,
            <<"lenses", "channel", "channel">>}
CellCases == {[op |-> "cells", trends |-> SetToSeq(t), level |-> v, kinds |-> k, layout |-> y] :
                t \in SUBSET Trends, v \in {"off", "off-facies", "facies", "internal"}, k \in Triples, y \in {"one", "two-flat", "two-rough", "three"}}
KeyCases == {[op |-> "keys", hyd |-> h, ani |-> a, het |-> e, level |-> v] : h \in BOOLEAN, a \in BOOLEAN, e \in BOOLEAN, v \in {"facies", "internal"}}
FieldCases == {[op |-> "field", kind |-> k, cor |-> q] : k \in {"lenses", "background", "mixed"}, q \in {"white", "x", "y", "z"}}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(CellCases) \o SetToSeq(KeyCases) \o SetToSeq(FieldCases))
None == <<>>
AllTrends == {None} \cup {<<a, b>> : a \in Ends, b \in Ends}
VARIABLES done, v, n, i, el, gl
vars == <<done, v, n, i, el, gl>>
L == 5000
Init == /\ done = 0 /\ v = L /\ n \in 1..MaxN /\ i \in 0..(MaxN - 1) /\ i < n
        /\ el \in [z : AllTrends, x : AllTrends] /\ gl \in [z : AllTrends, x : {None, <<700, 1300>>}]
Next == /\ done < 4 /\ done' = done + 1 /\ UNCHANGED <<n, i, el, gl>>
        /\ LET t == <<el.z, el.x, gl.z, gl.x>>[done + 1] IN v' = Times(v, Factor(t, i, n))
Spec == Init /\ [][Next]_vars
(* the machine reaches the declared value, and the order of the trends is irrelevant *)
Reached == done = 4 => v = Value(L, "internal", i, i, n, n, el, gl)
Swap(r) == [z |-> r.x, x |-> r.z]
Commutes == Near(Trended(L, i, i, n, n, el, gl), Trended(L, i, i, n, n, Swap(gl), Swap(el)), Tolerance(v) + 4)
EndsMet == \A t \in AllTrends \ {None} : Factor(t, 0, n) = 10 * t[1] /\ (n > 1 => Factor(t, n - 1, n) = 10 * t[2])
Monotone == \A t \in AllTrends \ {None} : i + 1 < n => (Factor(t, i + 1, n) - Factor(t, i, n)) * Sign(t[2] - t[1]) >= 0
Untouched == \A w \in {"off", "facies"} : Value(L, w, i, i, n, n, el, gl) = L
NoTrend == el = [z |-> None, x |-> None] /\ gl = [z |-> None, x |-> None] => v = L
=============================================================================
