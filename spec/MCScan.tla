------------------------------- MODULE MCScan -------------------------------
(* The world is built first (two elements with objects and a plain one below, in  *)
(* one or two strata), then scanned.                                              *)
EXTENDS Scan
CONSTANTS H, MaxObj1, MaxObj2, Slack     \* Slack: an object may reach lower elsewhere than in this column
VARIABLE b                    \* [cut, one, e1, e2] while building
Empty(o) == o.lo > o.hi
Objs(e) == {o \in [lo : 0..H, hi : 0..H, zmin : 0..H, zmax : 1..H] :
              /\ (Empty(o) => o.lo = 1 /\ o.hi = 0)
              /\ o.zmin \in (IF Slack THEN {0, o.lo} ELSE {o.lo}) /\ ObjOK(e, o)}
Plain(lo, hi) == [lo |-> lo, hi |-> hi, zmin |-> 0, sheet |-> FALSE, objs |-> <<>>]
Build0 == /\ b \in [cut : {c \in (0..H) \X (0..H) : c[1] >= c[2]}, two : BOOLEAN, s1 : BOOLEAN, s2 : BOOLEAN, low : BOOLEAN, q1 : {<<>>}, q2 : {<<>>}]
          /\ w = <<>> /\ z = H /\ si = 1 /\ ai = 1 /\ oi = 1 /\ res = <<>> /\ pc = "build"
E1(x) == [lo |-> x.cut[1], hi |-> H, zmin |-> 0, sheet |-> x.s1, objs |-> x.q1]
E2(x) == [lo |-> x.cut[2], hi |-> x.cut[1], zmin |-> 0, sheet |-> x.s2, objs |-> x.q2]
Sorted(q, o) == Len(q) > 0 => q[Len(q)].zmax >= o.zmax
Add1 == pc = "build" /\ Len(b.q1) < MaxObj1 /\ b.q2 = <<>> /\ \E o \in Objs(E1(b)) : Sorted(b.q1, o) /\ b' = [b EXCEPT !.q1 = Append(@, o)] /\ UNCHANGED vars
Add2 == pc = "build" /\ Len(b.q2) < MaxObj2 /\ \E o \in Objs(E2(b)) : Sorted(b.q2, o) /\ b' = [b EXCEPT !.q2 = Append(@, o)] /\ UNCHANGED vars
MinSet(S) == CHOOSE m \in S : \A n \in S : m <= n
Tight(e) == [e EXCEPT !.zmin = MinSet({e.lo} \cup {e.objs[i].zmin : i \in 1..Len(e.objs)})]
World(x) == LET e1 == IF x.low THEN Tight(E1(x)) ELSE E1(x)
                e2 == IF x.low THEN Tight(E2(x)) ELSE E2(x)
            IN  IF x.two THEN <<[zmin |-> e1.zmin, aes |-> <<e1>>], [zmin |-> 0, aes |-> <<e2, Plain(0, x.cut[2])>>]>>
                ELSE <<[zmin |-> MinSet({e1.zmin, e2.zmin}), aes |-> <<e1, e2>>], [zmin |-> 0, aes |-> <<Plain(0, x.cut[2])>>]>>
Go == pc = "build" /\ WorldOK(World(b), H) /\ w' = World(b) /\ pc' = "stratum" /\ UNCHANGED <<z, si, ai, oi, res, b>>
Scanning == pc # "build" /\ Next /\ UNCHANGED b
Spec == Build0 /\ [][Add1 \/ Add2 \/ Go \/ Scanning]_<<vars, b>>
Types == pc = "build" \/ TypeOK
=============================================================================
