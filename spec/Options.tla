------------------------------ MODULE Options ------------------------------
(* The shape contract of list options.                                        *)
(*                                                                            *)
(* A declared shape is one of                                                 *)
(*   [k |-> "any"]                     arbitrary value                        *)
(*   [k |-> "dims", d |-> <<...>>]     one entry per dimension, outermost     *)
(*        first; an entry is a tagged tree whose leaf is the length of the    *)
(*        lists of that dimension (-1: free), or a list of such trees giving  *)
(*        the length for each list of that dimension separately               *)
(*   [k |-> "ref"]                     the shape of the other option          *)
(* In "dims" the leaf RefLen stands for the length of the other option.       *)
EXTENDS Tree

RefLen == -9

(* the shape of a nested list, as a list of dimensions with separate lengths  *)
RECURSIVE LensAt(_, _)
LensAt(x, k) ==   \* lengths of all lists k levels below x
    IF k = 0 THEN Leaf(Len(x.c)) ELSE List([i \in 1..Len(x.c) |-> LensAt(x.c[i], k-1)])
ShapeOf(x) == [i \in 1..Depth(x) |-> LensAt(x, i-1)]

Resolve(s, other) ==
    IF s.k = "ref" THEN ShapeOf(other)
    ELSE [i \in 1..Len(s.d) |-> IF s.d[i] = Leaf(RefLen) THEN Leaf(Len(other.c)) ELSE s.d[i]]

(* length demanded of a list: node of dimension tree `dt` reached by `path`   *)
RECURSIVE LenFor(_, _)
LenFor(dt, path) ==
    IF ~IsList(dt) THEN dt.v
    ELSE IF path = <<>> THEN -2                  \* malformed
    ELSE IF Head(path) > Len(dt.c) THEN -2
    ELSE LenFor(dt.c[Head(path)], Tail(path))

(* x, found at `path`, has the shape dims from dimension k on                 *)
RECURSIVE Conforms(_, _, _, _)
Conforms(x, dims, k, path) ==
    IF k > Len(dims) THEN ~IsList(x)
    ELSE /\ IsList(x)
         /\ LET n == LenFor(dims[k], path) IN n = -1 \/ n = Len(x.c)
         /\ \A i \in 1..Len(x.c) : Conforms(x.c[i], dims, k+1, Append(path, i))
HasShape(x, dims) == Conforms(x, dims, 1, <<>>)

(* copy x over the outer dimensions 1..m; all of them must have known length  *)
RECURSIVE KnownUpTo(_, _)
KnownUpTo(dims, m) == \A k \in 1..m : \A i \in 1..Len(Leaves(dims[k])) : Leaves(dims[k])[i] >= 0
RECURSIVE Spread(_, _, _, _, _)
Spread(x, dims, m, k, path) ==
    IF k > m THEN x
    ELSE LET n == LenFor(dims[k], path)
         IN  IF n < 0 THEN x
             ELSE List([i \in 1..n |-> Spread(x, dims, m, k+1, Append(path, i))])

Reject == [ok |-> FALSE, val |-> Leaf(0)]
Accept(x) == [ok |-> TRUE, val |-> x]

(* the contract *)
Parse(s, other, x) ==
    IF s.k = "any" THEN Accept(IF IsList(x) THEN x ELSE List(<<x>>))
    ELSE LET dims == Resolve(s, other)
             missing == Len(dims) - Depth(x)
         IN  IF ~Uniform(x) THEN Reject
             ELSE IF x = List(<<>>) /\ dims[1] \in {Leaf(0), Leaf(-1)} THEN Accept(x)
             ELSE IF missing < 0 THEN Reject
             ELSE IF ~KnownUpTo(dims, missing) THEN Reject
             ELSE LET r == Spread(x, dims, missing, 1, <<>>)
                  IN  IF HasShape(r, dims) THEN Accept(r) ELSE Reject
=============================================================================
