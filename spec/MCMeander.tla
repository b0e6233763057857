----------------------------- MODULE MCMeander ------------------------------
(* All short noise sequences for every pair (h, k).                            *)
EXTENDS Meander, IOUtils, Json, SequencesExt
CONSTANTS MaxLen, Step
Values == {-Step, 0, Step}
VARIABLES row, t, e
vars == <<row, t, e>>
Init == row \in 1..Len(Table) /\ t = <<0>> /\ e = <<>>
Next == /\ Len(t) <= MaxLen
        /\ \E v \in Values : /\ e' = Append(e, v)
                             /\ t' = Append(t, v + Predict(Table[row], t, Len(t) + 1))
        /\ UNCHANGED row
Spec == Init /\ [][Next]_vars
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT,
    SetToSeq({[row |-> q, h |-> Table[q].h, k |-> Table[q].k, eps |-> p, ds |-> d, angle |-> a] :
              q \in 1..Len(Table), p \in {10, 80}, d \in {10, 100}, a \in {-90, 90}}))
(* the noise can be read off the directions *)
Recovered == Noise(Table[row], t) = e
(* without noise the channel is straight *)
Straight == (\A i \in 1..Len(e) : e[i] = 0) => \A i \in 1..Len(t) : t[i] = 0
(* opposite noise, opposite turns *)
RECURSIVE Series(_, _, _)
Series(c, n, s) == IF Len(s) > Len(n) THEN s ELSE Series(c, n, Append(s, n[Len(s)] + Predict(c, s, Len(s) + 1)))
Odd == LET o == Series(Table[row], [i \in 1..Len(e) |-> -e[i]], <<0>>)
       IN  \A i \in 1..Len(t) : Near(o[i], -t[i], 2 * Len(t))
(* turns die out: the coefficients lie in the stationary triangle *)
Damped == LET c == Table[row] IN c.b2 > -10000 /\ c.b2 < 0 /\ Abs(c.b1) < 10000 - c.b2
(* other parameters are noticed: they need other noise for the same directions *)
Distinct == \A q \in 1..Len(Table) : q # row /\ Len(e) >= 3 /\ e[1] # 0 => Noise(Table[q], t) # e
=============================================================================
