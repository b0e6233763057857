------------------------------ MODULE MCStrata ------------------------------
(* All models with up to MaxN strata and flat contacts at the elevations Elev;  *)
(* the domain reaches from Z0 to Z0 + H.                                        *)
EXTENDS Strata, FiniteSets, SequencesExt, IOUtils, Json, TLC
CONSTANTS MaxN, Elev, NegElev, Z0, H
E == Elev \cup {-e : e \in NegElev}
Models == UNION {{[n |-> n, z0 |-> -Z0, top |-> H - Z0, contacts |-> c] :
                    c \in [1..(n - 1) -> [kind : {"flat"}, z : E]]} : n \in 1..MaxN}
Kinds(m, k) == [i \in 1..m.n |-> <<"stratum", "own", "sheet">>[((i + k) % 3) + 1]]
(* a rough contact at position r in a model (0: none) *)
Rough(m, r) == [m EXCEPT !.contacts = [j \in 1..(m.n - 1) |-> IF j = r THEN [m.contacts[j] EXCEPT !.kind = "rough"] ELSE m.contacts[j]]]
Cases == {[m |-> Rough(m, r), kinds |-> Kinds(m, k), r |-> r] : m \in Models, k \in 0..2, r \in 0..(MaxN - 1)}
Ok(c) == c.r < c.m.n /\ (c.r = 0 \/ c.kinds[1] = "own")
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq({c \in Cases : Ok(c)}))
VARIABLE m
Init == m \in Models
Next == UNCHANGED m
Spec == Init /\ [][Next]_m
B == [i \in 0..m.n |-> Boundary(m.top, FlatFree(m), i)]
Zs == {z * 2500 : z \in (-Z0) \div 2500..(H - Z0) \div 2500}
NeverCross == \A i \in 1..m.n : B[i] <= B[i - 1]
(* with contacts inside the domain the strata fill it, and without coinciding    *)
(* boundaries every elevation off the boundaries lies in exactly one             *)
Fills == \A z \in Zs : Containing(B, m.n, z, 0) # {} /\ (z \notin {B[i] : i \in 0..m.n} => Cardinality(Containing(B, m.n, z, 0)) = 1)
AtItsElevation == \A i \in 1..(m.n - 1) :
    LET z == m.contacts[m.n - i].z IN B[i] = z \/ (z > B[i] /\ B[i] = B[i - 1])
ReachesBottom == B[m.n] <= m.z0 /\ ((\A j \in 1..(m.n - 1) : m.contacts[j].z >= m.z0) => B[m.n] = m.z0)
=============================================================================
