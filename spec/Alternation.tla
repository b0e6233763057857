----------------------------- MODULE Alternation ------------------------------
(* Facies of the successive layers of an object: a walk over the element's       *)
(* facies that only follows the listed alternatives.                             *)
(* table: [facies: sequence of facies, alt: sequence of sequences, or <<>> if    *)
(* no alternatives are given]                                                    *)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == {s[i] : i \in 1..Len(s)}
Follow(t, f) == IF t.alt = <<>> THEN Rng(t.facies)
                ELSE UNION {Rng(t.alt[i]) : i \in {j \in 1..Len(t.facies) : t.facies[j] = f}}
Start(t) == Rng(t.facies)
Walk(t, s) == Len(s) > 0 => s[1] \in Start(t) /\ \A i \in 1..(Len(s) - 1) : s[i + 1] \in Follow(t, s[i])
Steps(seqs) == UNION {{<<s[i], s[i + 1]>> : i \in 1..(Len(s) - 1)} : s \in seqs}
AllSteps(t) == UNION {{<<f, g>> : g \in Follow(t, f)} : f \in Start(t)}
=============================================================================
