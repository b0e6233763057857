---------------------------- MODULE ParseHistory ----------------------------
(* Repeated parsing with the same option declarations.  `store` is what the   *)
(* callers hold: the results returned so far, which they may change at will.  *)
(* A declaration never changes, so the result of a parse is a function of the *)
(* section's text alone.                                                      *)
EXTENDS Options, TLC

(* declarations: o: any shape, alternative name oo; v: as many pairs as o is   *)
(* long, default 3 pairs; w: the shape of o, default none; u: default list     *)
DefaultV == List(<<List(<<Leaf(1), Leaf(2)>>), List(<<Leaf(3), Leaf(4)>>)>>)
DefaultU == List(<<List(<<Leaf(5)>>), List(<<Leaf(6)>>)>>)
Pairs == [k |-> "dims", d |-> <<Leaf(RefLen), Leaf(2)>>]
SameAsO == [k |-> "ref", d |-> <<>>]

O2 == List(<<Leaf(7), Leaf(8)>>)
O3 == List(<<Leaf(7), Leaf(8), Leaf(9)>>)
O22 == List(<<List(<<Leaf(7), Leaf(8)>>), List(<<Leaf(9)>>)>>)
None == [t |-> "-", v |-> 0, c |-> <<>>]
(* sections: o under either name, v, w, u given or not *)
Section(name, o, v, w, u) == [oname |-> name, o |-> o, v |-> v, w |-> w, u |-> u]
SectionSet == { Section("o", O2, None, None, None),
             Section("oo", O3, Leaf(11), None, None),
             Section("o", O3, List(<<Leaf(11), Leaf(12)>>), Leaf(13), None),
             Section("oo", O22, Leaf(11), Leaf(13), Leaf(14)),
             Section("o", O2, List(<<List(<<Leaf(11), Leaf(12)>>), List(<<Leaf(15), Leaf(16)>>)>>), List(<<Leaf(17), Leaf(18)>>), List(<<List(<<Leaf(21)>>)>>)),
             Section("o", O3, List(<<List(<<Leaf(11), Leaf(12)>>), List(<<Leaf(15), Leaf(16)>>)>>), None, None) }

Given(x, dflt, parsed) == IF x = None THEN [ok |-> TRUE, val |-> dflt] ELSE parsed
Want(s) == LET v == Given(s.v, DefaultV, Parse(Pairs, s.o, s.v))
               w == Given(s.w, None, Parse(SameAsO, s.o, s.w))
               u == Given(s.u, DefaultU, Parse([k |-> "any", d |-> <<>>], s.o, s.u))
           IN  IF v.ok /\ w.ok /\ u.ok
               THEN [ok |-> TRUE, o |-> s.o, v |-> v.val, w |-> w.val, u |-> u.val]
               ELSE [ok |-> FALSE, o |-> None, v |-> None, w |-> None, u |-> None]

VARIABLES store,   \* results the callers hold, one per parse call
          decls    \* the declarations in force
Init == store = <<>> /\ decls = [v |-> DefaultV, u |-> DefaultU]
DoParse(k, s) == /\ store' = Append(store, Want(s))
                 /\ UNCHANGED decls
(* a caller changes its latest result *)
Mutate == /\ store # <<>>
          /\ store' = [store EXCEPT ![Len(store)] =
                 [@ EXCEPT !.v = List(<<Leaf(99)>>), !.u = List(<<Leaf(98)>>), !.o = List(<<>>)]]
          /\ UNCHANGED decls
Next == Mutate \/ \E k \in 1..2, s \in SectionSet : DoParse(k, s)
Isolated == [][decls' = decls]_<<store, decls>>
Spec == Init /\ [][Next]_<<store, decls>>
=============================================================================
