-------------------------------- MODULE Tree --------------------------------
(* Nested lists as tagged trees: [t |-> "n", v |-> leaf, c |-> <<>>] for an    *)
(* entry, [t |-> "l", v |-> 0, c |-> <<children>>] for a list.                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Leaf(x) == [t |-> "n", v |-> x, c |-> <<>>]
List(s) == [t |-> "l", v |-> 0, c |-> s]
IsList(x) == x.t = "l"

RECURSIVE Depth(_)
Depth(x) == IF ~IsList(x) THEN 0
            ELSE IF x.c = <<>> THEN 1
            ELSE 1 + Depth(x.c[Len(x.c)])

(* the same depth everywhere *)
RECURSIVE Uniform(_)
Uniform(x) == IsList(x) =>
    /\ \A i, j \in 1..Len(x.c) : Depth(x.c[i]) = Depth(x.c[j])
    /\ \A i \in 1..Len(x.c) : Uniform(x.c[i])

Copies(n, x) == List([i \in 1..n |-> x])

RECURSIVE Leaves(_)
Leaves(x) == IF ~IsList(x) THEN <<x.v>>
             ELSE IF x.c = <<>> THEN <<>>
             ELSE FlattenSeq([i \in 1..Len(x.c) |-> Leaves(x.c[i])])
=============================================================================
