---------------------------- MODULE MCAlternation -----------------------------
EXTENDS Alternation, SequencesExt, IOUtils, Json, TLC
CONSTANTS N
Lists == {<<3>>, <<1, 4>>, <<4, 1>>, <<0, 1, 2>>, <<2, 0, 5>>}
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o o : o \in Orders(S \ {x})} : x \in S}
(* one or two orders of the alternatives of a facies *)
Some(S) == {CHOOSE o \in Orders(S) : \A i \in 1..(Len(o) - 1) : o[i] > o[i + 1]}
Alts(f) == {<<>>} \cup [1..Len(f) -> UNION {Some(S) : S \in SUBSET Rng(f) \ {{}}}]
Tables == UNION {{[facies |-> f, alt |-> a] : a \in Alts(f)} : f \in Lists}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Tables))
VARIABLES t, w
Init == t \in Tables /\ w \in {<<f>> : f \in Start(t)}
Next == Len(w) < N /\ \E g \in Follow(t, w[Len(w)]) : w' = Append(w, g) /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, w>>
IsWalk == Walk(t, w)
OnlyElementFacies == Rng(w) \subseteq Rng(t.facies)
NeverStuck == Follow(t, w[Len(w)]) # {}
StepsListed == Steps({w}) \subseteq AllSteps(t)
=============================================================================
