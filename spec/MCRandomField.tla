---------------------------- MODULE MCRandomField ----------------------------
(* Spectral generation on grids with at most two cells per axis, where the waves  *)
(* are signs: the field is the sum of the waves with random coefficients, the     *)
(* coefficient of the constant wave being zero.                                   *)
EXTENDS RandomField, SequencesExt, IOUtils, Json, TLC
CONSTANTS Coefficients, MaxCells
VARIABLES n, coef
B(k) == 0..(k - 1)
Cells(d) == B(d[1]) \X B(d[2]) \X B(d[3])
Dims == {d \in {1, 2} \X {1, 2} \X {1, 2} : d[1] * d[2] * d[3] <= MaxCells}
Wave(k, c) == IF (k[1] * c[1] + k[2] * c[2] + k[3] * c[3]) % 2 = 0 THEN 1 ELSE -1
Init == n \in Dims /\ coef \in [Cells(n) -> Coefficients] /\ coef[<<0, 0, 0>>] = 0
Spec == Init /\ [][UNCHANGED <<n, coef>>]_<<n, coef>>
RECURSIVE SumF(_, _)
SumF(S, f) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + SumF(S \ {e}, f)
Field(a) == TLCEval([c \in Cells(n) |-> SumF(Cells(n), [k \in Cells(n) |-> a[k] * Wave(k, c)])])
F == Field(coef)
ZeroMean == SumF(Cells(n), F) = 0
Scaling == Field([k \in Cells(n) |-> 3 * coef[k]]) = [c \in Cells(n) |-> 3 * F[c]]
ZeroIfNoVariance == (\A k \in Cells(n) : coef[k] = 0) => \A c \in Cells(n) : F[c] = 0
(* mean square of the field = sum of the squared coefficients *)
Parseval == SumF(Cells(n), [c \in Cells(n) |-> F[c] * F[c]]) = Cardinality(Cells(n)) * SumF(Cells(n), [k \in Cells(n) |-> coef[k] * coef[k]])
(* constant along an axis exactly if all waves that vary along it vanish *)
Unit(b) == [q \in 1..3 |-> IF q = b THEN 1 ELSE 0]
VariesAlong(b) == \E c \in Cells(n) : c[b] = 0 /\ n[b] = 2 /\ F[c] # F[<<c[1] + Unit(b)[1], c[2] + Unit(b)[2], c[3] + Unit(b)[3]>>]
Variation == \A b \in 1..3 : VariesAlong(b) <=> (\E k \in Cells(n) : k[b] = 1 /\ coef[k] # 0)
(* lines need not have zero mean: only the box has *)
ASSUME \E f \in [Cells(<<2, 2, 1>>) -> {-1, 0, 1}] : SumF(Cells(<<2, 2, 1>>), f) = 0 /\ f[<<0, 0, 0>>] + f[<<0, 1, 0>>] # 0
(* boxes *)
Small == {1, 2, 3} \X {1, 2, 3} \X {1, 2}
ASSUME \A S \in {T \in SUBSET ({1, 2, 3} \X {1, 2} \X {1, 2}) : T # {} /\ Cardinality(T) <= 4} :
    S \subseteq Box(S) /\ Box(Box(S)) = Box(S) /\ \A b \in 1..3 : {c[b] : c \in Box(S)} = Range(S, b)
Ns == {<<6, 5, 4>>, <<7, 8, 3>>, <<1, 6, 5>>, <<5, 1, 4>>, <<6, 4, 1>>, <<1, 1, 7>>, <<9, 1, 1>>, <<2, 2, 2>>, <<1, 1, 1>>}
Masks == {"none", "all", "box", "ragged", "single", "corners"}
Cases == {[op |-> "support", n |-> q, two |-> t, mask |-> m, model |-> v] : q \in Ns, t \in BOOLEAN, m \in Masks, v \in {"gaussian", "exp"}}
    \cup {[op |-> "cov", two |-> t, axis |-> a, mask |-> m, model |-> v, odd |-> o] : t \in BOOLEAN, a \in 1..3, m \in {"none", "box"}, v \in {"gaussian", "exp"}, o \in BOOLEAN}
    \cup {[op |-> "unknown", two |-> t, mask |-> m, model |-> v] : t \in BOOLEAN, m \in {"none", "box"}, v \in {"Gaussian", "exponential", "spherical", "gauss", "none"}}
    \cup {[op |-> "surface", axis |-> a, odd |-> o, what |-> w] : a \in 1..2, o \in BOOLEAN, w \in {"stratum", "element"}}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
