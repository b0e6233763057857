--------------------------- MODULE MCCrossSection ---------------------------
EXTENDS CrossSection, IOUtils, Json, SequencesExt, TLC
CONSTANTS Origins, Below, Sizes, Counts, Mix
Axes == {[o |-> o, d |-> d, n |-> n] : o \in Origins \cup {-b : b \in Below}, d \in Sizes, n \in Counts}
AxisSeq == TLCEval(SetToSeq(Axes))
L == Len(AxisSeq)
(* positions relative to a cell: quarters, middle, faces, near the ends, outside *)
Spots(a) == TLCEval(
    {a.o + i * a.d + (q * a.d) \div 8 : i \in Cells(a), q \in {0, 1, 4, 7}}
    \cup {a.o - 10, a.o + 10, a.o + Extent(a), a.o + Extent(a) - 10, a.o + Extent(a) + 10, a.o - a.d, a.o + Extent(a) + a.d,
          a.o + Extent(a) + (3 * a.d) \div 5, a.o - (3 * a.d) \div 5})
VARIABLES a, p
Init == a \in Axes /\ p \in Spots(a)
Next == UNCHANGED <<a, p>>
Spec == Init /\ [][Next]_<<a, p>>
(* every position inside has a row, two only on a common face; none has one outside *)
Rowed == /\ Inside(a, p) => RowsAt(a, p) # {}
         /\ Outside(a, p) => RowsAt(a, p) = {}
         /\ Cardinality(RowsAt(a, p)) <= 2
         /\ Cardinality(RowsAt(a, p)) = 2 => \E i \in Cells(a) : p = Low(a, i)
         /\ RowsAt(a, p) = Rows2(a, 2 * p)
(* the centre of the domain is always inside *)
CentreInside == Inside2(a, Positions2(a, [given |-> FALSE, at |-> <<>>])[1])

Req(ax, i) == LET s == SetToSeq(Spots(ax))
                  at(j) == s[((i * 7 + j * 5) % Len(s)) + 1]
              IN  CASE i % 6 = 0 -> [given |-> FALSE, single |-> FALSE, at |-> <<>>]
                    [] i % 6 = 1 -> [given |-> TRUE, single |-> FALSE, at |-> <<>>]
                    [] i % 6 = 2 -> [given |-> TRUE, single |-> TRUE, at |-> <<at(0)>>]
                    [] i % 6 = 3 -> [given |-> TRUE, single |-> FALSE, at |-> <<at(1)>>]
                    [] i % 6 = 4 -> [given |-> TRUE, single |-> FALSE, at |-> <<at(0), at(1), at(2)>>]
                    [] i % 6 = 5 -> [given |-> TRUE, single |-> FALSE, at |-> <<at(3), at(2), at(1), at(0)>>]
Case(i, k) == LET g == <<AxisSeq[i], AxisSeq[((i + 7 * k + 3) % L) + 1], AxisSeq[((3 * i + 11 * k) % L) + 1]>>
              IN  [axes |-> g, x |-> Req(g[1], i + k), y |-> Req(g[2], i \div 6 + 2 * k), log |-> (i + k) % 3 = 0,
                   lims |-> (i + k) % 4 = 1, cmap |-> IF k % 2 = 0 THEN "" ELSE "prism"]
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq({Case(i, k) : i \in 1..L, k \in 0..Mix}))
=============================================================================
