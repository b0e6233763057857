----------------------------- MODULE MCOptions -----------------------------
(* Every declared shape of a small universe against every small nested value: *)
(* one state per pair.  The invariants say that the contract is consistent;   *)
(* the pairs are written out and replayed into the code.                      *)
EXTENDS Options, TLC, IOUtils, Json
CONSTANT Big

N(x) == Leaf(x)
Ls(s) == List(s)
W == IF Big THEN 3 ELSE 2          \* maximal list length in values

(* nested values with leaves numbered left to right from 1 *)
Skel1 == { [i \in 1..n |-> N(0)] : n \in 1..W }
Lists1 == {Ls(s) : s \in Skel1} \cup {Ls([i \in 1..3 |-> N(0)])}
Lists2 == {Ls(s) : s \in UNION {[1..n -> Lists1] : n \in 1..W}}
Lists3 == {Ls(s) : s \in UNION {[1..n -> IF Big THEN {x \in Lists2 : Len(Leaves(x)) <= 4}
                                          ELSE {x \in Lists2 : Len(Leaves(x)) <= 3 \/ x = Ls(<<Ls(<<N(0),N(0),N(0)>>), Ls(<<N(0),N(0),N(0)>>)>>)}] : n \in 1..2}}
Uneven == {Ls(<<N(0), Ls(<<N(0)>>)>>), Ls(<<Ls(<<N(0)>>), N(0)>>),
           Ls(<<Ls(<<N(0), N(0)>>), Ls(<<Ls(<<N(0)>>), Ls(<<N(0)>>)>>)>>),
           Ls(<<Ls(<<Ls(<<N(0)>>)>>), Ls(<<N(0)>>)>>),
           Ls(<<Ls(<<Ls(<<N(0)>>), N(0)>>), Ls(<<N(0), Ls(<<N(0)>>)>>)>>),
           Ls(<<Ls(<<Ls(<<N(0)>>), N(0)>>)>>), Ls(<<Ls(<<N(0), Ls(<<N(0)>>)>>)>>),
           Ls(<<Ls(<<Ls(<<N(0)>>), N(0)>>), Ls(<<Ls(<<N(0)>>), N(0)>>)>>),
           Ls(<<Ls(<<N(0), Ls(<<N(0)>>)>>), Ls(<<N(0), Ls(<<N(0)>>)>>)>>),
           Ls(<<Ls(<<N(0), Ls(<<N(0)>>), N(0)>>), Ls(<<N(0), N(0), N(0)>>)>>)}
RECURSIVE Number(_, _)
Number(x, n) ==   \* <<numbered tree, next number>>
    IF ~IsList(x) THEN <<N(n), n+1>>
    ELSE LET step[i \in 0..Len(x.c)] ==
                 IF i = 0 THEN <<<<>>, n>>
                 ELSE LET r == Number(x.c[i], step[i-1][2]) IN <<Append(step[i-1][1], r[1]), r[2]>>
         IN <<Ls(step[Len(x.c)][1]), step[Len(x.c)][2]>>
Values == {Number(x, 1)[1] : x \in {N(0), Ls(<<>>)} \cup Lists1 \cup Lists2 \cup Lists3 \cup Uneven}

AnyShape == [k |-> "any", d |-> <<>>]
Ref == [k |-> "ref", d |-> <<>>]
D(s) == [k |-> "dims", d |-> s]
Len1 == {-1, 0, 1, 2, 3}
Shapes == {AnyShape, Ref}
    \cup {D(<<N(a)>>) : a \in Len1 \cup {RefLen}}
    \cup {D(<<N(a), N(b)>>) : a \in {-1, 1, 2, 3, RefLen}, b \in {-1, 1, 2, 3, RefLen}}
    \cup {D(<<N(a), N(b), N(c)>>) : a \in {-1, 2, RefLen}, b \in {-1, 1, 2, RefLen}, c \in {-1, 2, 3}}
    \cup {D(<<N(2), Ls(<<N(1), N(2)>>)>>), D(<<N(2), Ls(<<N(2), N(2)>>)>>), D(<<N(2), Ls(<<N(3), N(-1)>>)>>),
          D(<<N(1), Ls(<<N(3)>>)>>), D(<<N(RefLen), Ls(<<N(2), N(1)>>)>>),
          D(<<N(2), Ls(<<N(1), N(2)>>), Ls(<<Ls(<<N(3)>>), Ls(<<N(3), N(3)>>)>>)>>),
          D(<<N(2), Ls(<<N(2), N(1)>>), Ls(<<Ls(<<N(1), N(2)>>), Ls(<<N(3)>>)>>)>>)}
Others == {Ls(<<N(7), N(8)>>), Ls(<<N(7), N(8), N(9)>>), Ls(<<Ls(<<N(7), N(8)>>), Ls(<<N(9)>>)>>),
           Ls(<<Ls(<<N(7), N(8)>>), Ls(<<N(9), N(6)>>)>>), Ls(<<Ls(<<N(7)>>)>>), Ls(<<N(7), N(7)>>), Ls(<<N(7), N(7), N(7)>>), Ls(<<N(7), N(8), N(7)>>),
           Ls(<<Ls(<<N(7), N(7)>>), Ls(<<N(7), N(7)>>)>>), Ls(<<Ls(<<Ls(<<N(7), N(8)>>)>>)>>),
           Ls(<<Ls(<<Ls(<<N(7)>>)>>), Ls(<<Ls(<<N(8)>>), Ls(<<N(9)>>)>>)>>), Ls(<<Ls(<<Ls(<<N(7), N(7)>>), Ls(<<N(7)>>)>>)>>)}
UsesRef(s) == s.k = "ref" \/ \E i \in 1..Len(s.d) : s.d[i] = N(RefLen)
(* a declaration that lists the inner lengths separately must list as many as there are *)
Consistent(s, o) == \A i \in 1..Len(s.d) : IsList(s.d[i]) /\ s.d[1] = N(RefLen) => Len(o.c) = 2
Cases == {<<s, o, x>> \in Shapes \X Others \X Values :
             Consistent(s, o) /\ (UsesRef(s) \/ o = Ls(<<N(7), N(8)>>))}

ASSUME "OUT" \in DOMAIN IOEnv =>
    ndJsonSerialize(IOEnv.OUT, SetToSeq({[shape |-> c[1], other |-> c[2], value |-> c[3]] : c \in Cases}))

VARIABLE case
Init == case \in Cases
Next == UNCHANGED case
Spec == Init /\ [][Next]_case

R == Parse(case[1], case[2], case[3])
dims == Resolve(case[1], case[2])
(* an accepted value has the declared shape *)
ShapeHolds == R.ok /\ case[1].k # "any" /\ R.val # Ls(<<>>) => HasShape(R.val, dims)
(* parsing an accepted value again changes nothing *)
Stable == R.ok => Parse(case[1], case[2], R.val) = R
(* a value that already has the shape is taken as it is *)
Identity == case[1].k # "any" /\ HasShape(case[3], dims) /\ Uniform(case[3]) => R = Accept(case[3])
(* nothing but copies of the given entries appears *)
OnlyGiven == R.ok => {Leaves(R.val)[i] : i \in 1..Len(Leaves(R.val))} \subseteq {Leaves(case[3])[i] : i \in 1..Len(Leaves(case[3]))}
(* the referenced shape accepts the referenced value itself *)
RefSelf == case[1].k = "ref" => Parse(case[1], case[2], case[2]) = Accept(case[2])
=============================================================================
