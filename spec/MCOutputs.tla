------------------------------ MODULE MCOutputs ------------------------------
(* Cases for the conformance check and facts about the cell positions. *)
EXTENDS Outputs, SequencesExt, IOUtils, Json, TLC
CONSTANT MaxN
Grids == {<<3, 2, 4>>, <<2, 5, 3>>, <<4, 3, 1>>, <<1, 3, 4>>, <<5, 2, 2>>, <<2, 2, 2>>, <<6, 1, 3>>}
Subsets == {SetToSeq(s) : s \in SUBSET Formats \ {{}}}
Reads == {[op |-> "read", formats |-> s, hyd |-> TRUE, ani |-> a] : s \in Subsets, a \in BOOLEAN}
         \cup {[op |-> "read", formats |-> SetToSeq(s), hyd |-> FALSE, ani |-> TRUE] : s \in SUBSET (Formats \ NeedsHydraulics) \ {{}}}
Singles == {[op |-> "one", formats |-> <<f>>, n |-> g, heads |-> h, hyd |-> TRUE, ani |-> a] :
              f \in Formats, g \in Grids, h \in {"hin", "gradh", "q"}, a \in BOOLEAN}
Bad == {"dat", "NPZ", "", "pickle", "csv", "np", "npz2", "m", "mf2005"}
Unknown == {[op |-> "unknown", formats |-> s] : s \in {<<b>> : b \in Bad} \cup {<<"npz", b>> : b \in Bad} \cup {<<b, "npz">> : b \in Bad}}
Real == {[op |-> "run", which |-> w, formats |-> SetToSeq(Formats)] : w \in {"sheets", "troughs", "channels", "plain"}}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT,
    SetToSeq(Reads) \o SetToSeq({c \in Singles : c.heads = "hin" \/ c.formats = <<"mf6">>}) \o SetToSeq(Unknown) \o SetToSeq(Real))
(* the writer as a machine: cells are stored one after the other, in any order *)
VARIABLES f, n, file, todo
vars == <<f, n, file, todo>>
Init == /\ f \in Formats /\ n \in (1..MaxN) \X (1..MaxN) \X (1..2)
        /\ file = [i \in 1..(n[1] * n[2] * n[3]) |-> <<>>] /\ todo = Cells(n)
Next == todo # {} /\ LET c == CHOOSE c \in todo : TRUE
                     IN todo' = todo \ {c} /\ file' = [file EXCEPT ![Pos(f, n, c)] = c] /\ UNCHANGED <<f, n>>
Spec == Init /\ [][Next]_vars
(* nothing is overwritten, and in the end nothing is missing *)
Kept == Cardinality({i \in DOMAIN file : file[i] # <<>>}) + Cardinality(todo) = n[1] * n[2] * n[3]
Complete == todo = {} => Rng(file) = Cells(n)
TopFirst == f \in Flow => \A c \in Cells(n) : Bottom(n, <<1, 1, 1>>, <<0, 0, 0>>, Index(f, n, c)[1]) = c[3]
Apart == \A x, y \in Formats : x # y => Entry(x, "r") # Entry(y, "r")
=============================================================================
