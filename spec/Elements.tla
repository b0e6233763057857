------------------------------ MODULE Elements ------------------------------
(* Elements of one stratum, generated from its top downwards.                   *)
(* Columns c have stratum boundaries Top[c] >= Bot[c].  An element is           *)
(* [type, level, bot]: the level at which its lower boundary was placed and     *)
(* that boundary's elevation per column.  The free shape of a boundary is       *)
(* level + Rough[c] where the element below is rough, level where it is flat.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cols, Types, Heights, Avulsions, RoughTypes, Shapes
VARIABLES top, bot, znow, aes, next
vars == <<top, bot, znow, aes, next>>
Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b
SetMean(f) == LET RECURSIVE Sum(_)
                  Sum(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN f[c] + Sum(S \ {c})
              IN  Sum(Cols) \div Cardinality(Cols)
Limit(v, lo, hi) == Max(lo, Min(v, hi))
AboveOf(as) == IF Len(as) = 0 THEN top ELSE as[Len(as)].bot
Thick == \E c \in Cols : top[c] > bot[c]
More == znow > SetMean(bot) \/ (aes = <<>> /\ Thick)
Step(h, a, t2, shape) ==
    LET z == znow - (h - a)
        last == z <= SetMean(bot)
        free == [c \in Cols |-> IF last THEN bot[c] ELSE IF t2 \in RoughTypes THEN z + shape[c] ELSE z]
        b == [c \in Cols |-> Limit(free[c], bot[c], AboveOf(aes)[c])]
    IN  /\ aes' = Append(aes, [type |-> next, level |-> IF last THEN SetMean(bot) ELSE z, bot |-> b, last |-> last])
        /\ znow' = IF last THEN SetMean(bot) ELSE z
        /\ next' = t2
        /\ UNCHANGED <<top, bot>>
Init(tops, bots) == /\ top \in tops /\ bot \in bots /\ \A c \in Cols : bot[c] <= top[c]
                    /\ znow = SetMean(top) /\ aes = <<>> /\ next \in Types
Next == More /\ \E h \in Heights, a \in Avulsions, t2 \in Types, s \in Shapes : Step(h, a, t2, s)
(* what the user relies on *)
Stacked == \A i \in 1..Len(aes) : \A c \in Cols :
    /\ bot[c] <= aes[i].bot[c]
    /\ aes[i].bot[c] <= (IF i = 1 THEN top[c] ELSE aes[i - 1].bot[c])
Complete == ~More => /\ (Thick => Len(aes) >= 1)
                     /\ Len(aes) >= 1 => aes[Len(aes)].bot = bot
OnlyLastAtBottom == \A i \in 1..Len(aes) : aes[i].last => i = Len(aes)
FlatIsFlat == \A i \in 1..(Len(aes) - 1) : aes[i + 1].type \notin RoughTypes =>
    \A c, d \in Cols : LET ab == IF i = 1 THEN top ELSE aes[i - 1].bot IN
        (bot[c] < aes[i].bot[c] /\ aes[i].bot[c] < ab[c]) => aes[i].bot[c] = aes[i].level
=============================================================================
