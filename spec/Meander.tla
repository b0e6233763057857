------------------------------ MODULE Meander -------------------------------
(* The direction of a channel's centreline: Ferguson's disturbed periodic model, *)
(* th[i] = b1 th[i-1] + b2 th[i-2] + noise[i], with                              *)
(* b1 = 2 exp(-k h) cos(k arcsin h) and b2 = -exp(-2 k h).                       *)
(* Directions are relative to the first one, in 1/100 of the noise's deviation.  *)
EXTENDS Fix, FiniteSets, TLC
(* 10 h, 10 k, 10000 b1, 10000 b2 *)
Table == <<[h |-> 4, k |-> 8, b1 |-> 13743, b2 |-> -5273],
           [h |-> 2, k |-> 5, b1 |-> 18005, b2 |-> -8187],
           [h |-> 7, k |-> 13, b1 |-> 4295, b2 |-> -1620],
           [h |-> 3, k |-> 20, b1 |-> 9001, b2 |-> -3012],
           [h |-> 9, k |-> 6, b1 |-> 9122, b2 |-> -3396],
           [h |-> 5, k |-> 30, b1 |-> 0, b2 |-> -498]>>
Predict(c, t, i) == IF i < 2 THEN 0
                    ELSE Div(c.b1 * t[i - 1] + c.b2 * (IF i < 3 THEN 0 ELSE t[i - 2]), 10000)
(* the noise that leads to directions t (t[1] = 0) *)
Noise(c, t) == TLCEval([i \in 1..Len(t) - 1 |-> t[i + 1] - Predict(c, t, i + 1)])
=============================================================================
