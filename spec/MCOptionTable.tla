--------------------------- MODULE MCOptionTable ----------------------------
(* Every option of the table against every form of a small universe: one state *)
(* per pair. The pairs are written out and replayed into the code.             *)
EXTENDS OptionTable, IOUtils, Json
CONSTANT Big

Ix(t) == CHOOSE i \in 1..Len(Texts) : Texts[i] = t
Z == Leaf(1)
L1(n) == List([i \in 1..n |-> Z])
LL(s) == List([i \in 1..Len(s) |-> L1(s[i])])
Skeletons == {Z} \cup {L1(n) : n \in 0..5}
    \cup {LL([i \in 1..m |-> n]) : m \in 1..5, n \in 0..4}
    \cup {LL(s) : s \in {<<1, 2, 1>>, <<2, 1, 1>>, <<1, 2>>, <<1, 1, 2>>, <<3, 3, 2>>, <<2, 3, 3, 3>>, <<1, 2, 1, 1>>, <<2, 2, 1>>}}
    \cup {List(<<Z, L1(2), Z>>), List(<<L1(2), L1(2), Z>>), List(<<L1(3), L1(3), L1(3), Z>>), List(<<Z, L1(1)>>),
          List(<<LL(<<1>>)>>), List(<<LL(<<1, 2, 1>>)>>), List(<<L1(1), LL(<<2>>), L1(1)>>), List(<<LL(<<3, 3, 3, 3>>)>>)}

RECURSIVE Number(_, _)
Number(x, n) ==
    IF ~IsList(x) THEN <<Leaf(n), n + 1>>
    ELSE LET step[i \in 0..Len(x.c)] ==
                 IF i = 0 THEN <<<<>>, n>>
                 ELSE LET r == Number(x.c[i], step[i-1][2]) IN <<Append(step[i-1][1], r[1]), r[2]>>
         IN <<List(step[Len(x.c)][1]), step[Len(x.c)][2]>>
RECURSIVE Map(_, _)
Map(f, x) == IF IsList(x) THEN List([i \in 1..Len(x.c) |-> Map(f, x.c[i])]) ELSE Leaf(f[x.v])

(* entries in a fixed order, starting anywhere *)
Good == <<"2", "0.25", "-3", "14", "1e1", "-1.5", "11", "6.75", "8.125", "12", "4.", ".5", "13", "0", "3.0", "+5">>
Goods == TLCEval([i \in 1..32 |-> Ix(Good[((i - 1) % Len(Good)) + 1])])
Numbered == TLCEval({Number(x, 1)[1] : x \in Skeletons})
Fill(x, off) == Map([i \in 1..24 |-> Goods[((i + off - 1) % 16) + 1]], x)
(* one entry is no number *)
Junk == {Ix("x"), Ix("1x"), Ix("true"), Ix("--1")}
Spoil(x, off, p, j) == Map([i \in 1..24 |-> IF i = p THEN j ELSE Goods[((i + off - 1) % 16) + 1]], x)

Plain == TLCEval({Fill(x, off) : x \in Numbered, off \in IF Big THEN 0..15 ELSE {0, 5}})
OldPlain == TLCEval({Fill(x, 3) : x \in Numbered})
ListForms(o) ==
    IF o.fmt = "old" /\ ~Big
    THEN OldPlain \cup {Spoil(x, 3, 1, Ix("x")) : x \in {y \in Numbered : Given(o, Fill(y, 3)).ok}}
    ELSE
    LET fits == TLCEval({x \in Numbered : Given(o, Fill(x, 0)).ok})
    IN  Plain \cup UNION {{Spoil(x, 0, p, j) : p \in 1..Len(Leaves(x)), j \in IF Big THEN Junk ELSE {Ix("x")}} : x \in fits}
              \cup {Spoil(x, 0, 1, j) : x \in fits, j \in Junk}
ScalarForms == TLCEval({Leaf(i) : i \in 1..Len(Texts)} \cup {Fill(x, 0) : x \in {y \in Numbered : Len(Leaves(y)) <= 2}})
Forms(o) == IF o.dims = Scalar THEN ScalarForms ELSE ListForms(o)

RECURSIVE Text(_)
Join(s) == FoldSeq(LAMBDA a, b : IF b = "" THEN a ELSE b \o ", " \o a, "", s)
Text(x) == IF IsList(x) THEN "[" \o Join([i \in 1..Len(x.c) |-> Text(x.c[i])]) \o "]" ELSE Texts[x.v]

Cases == TLCEval(UNION {{[o |-> o, absent |-> FALSE, form |-> x] : x \in Forms(o)}
                \cup {[o |-> o, absent |-> TRUE, form |-> Leaf(1)]} : o \in Table})
Outcome(c) == IF c.absent THEN LeftOut(c.o, 0) ELSE Given(c.o, c.form)
ASSUME "OUT" \in DOMAIN IOEnv =>
    ndJsonSerialize(IOEnv.OUT, SetToSeq({[fmt |-> c.o.fmt, at |-> c.o.at, alts |-> c.o.alts, sec |-> c.o.sec, name |-> c.o.name, absent |-> c.absent, form |-> c.form,
                                          text |-> Text(c.form), ok |-> Outcome(c).ok,
                                          deps |-> Dependents(c.o)] : c \in Cases}))

VARIABLE case
Init == case \in Cases
Next == UNCHANGED case
Spec == Init /\ [][Next]_case

(* an accepted value has the shape of the option; every default does, too *)
Shaped == LET r == Outcome(case)
          IN  r.ok /\ case.o.dims # Scalar /\ r.val # Leaf(Unset) => HasShape(r.val, case.o.dims) \/ r.val = List(<<>>)
(* only required options can make a file without them unreadable *)
Needed == case.absent => (Outcome(case).ok <=> case.o.need.t # "req")
(* accepted values consist of the numbers that were written *)
Kept == ~case.absent /\ Outcome(case).ok =>
          {Leaves(Outcome(case).val)[i] : i \in 1..Len(Leaves(Outcome(case).val))}
          = {Meaning(case.o.type)[Texts[Leaves(case.form)[i]]] : i \in 1..Len(Leaves(case.form))}
(* names are unique in a section *)
ASSUME \A o, p \in Table : o.fmt = p.fmt /\ o.sec = p.sec /\ ({o.name} \cup o.alts) \cap ({p.name} \cup p.alts) # {} => o = p
ASSUME \A o, p \in Table : o.fmt = p.fmt /\ o.at = p.at /\ o.at # <<>> => o = p
=============================================================================
