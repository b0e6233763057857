----------------------------- MODULE MCSections -----------------------------
EXTENDS Sections, IOUtils, Json, SequencesExt
Types == {"int", "float", "str", "bool", "list"}
Defaults(t) == {"none", CASE t = "int" -> "i42" [] t = "float" -> "f42.5" [] t = "str" -> "sdefault"
                          [] t = "bool" -> "bT" [] t = "list" -> "l[[4, 2]]"}
Rules(t) == IF t = "str" THEN {"all", "word"} ELSE IF t = "bool" THEN {"all"} ELSE {"all", "le5"}
Decls == UNION {{[type |-> t, opt |-> o, def |-> d, alts |-> a, valid |-> v] :
                   o \in BOOLEAN, d \in Defaults(t), a \in {<<>>, <<"x">>, <<"x", "y">>, <<"y", "x">>, <<"x", "w", "y">>, <<"w", "x", "y", "v">>}, v \in Rules(t)} : t \in Types}
(* sections: the option's own text (or absent), alternatives, an unknown name *)
Given(t) == [own |-> Texts \cup {"-"}, x |-> {"-", IF t \in {"str", "bool"} THEN "true" ELSE "3", "17", "abc"}, y |-> {"-", "1"}, z |-> {"-", "q"}]
Mk(own, x, y, w, z) == LET pairs == {<<"opt", own>>, <<"x", x>>, <<"y", y>>, <<"w", w>>, <<z, "q">>, <<"second", "5">>}
                        ps == {p \in pairs : p[1] # "-" /\ p[2] # "-"}
                    IN  [n \in {p[1] : p \in ps} |-> (CHOOSE p \in ps : p[1] = n)[2]]
(* unknown names: also ones that resemble the declared ones *)
Unknown == {"z", "opt2", "secon", "Opt", "second_opt"}
Cases == {<<d, Mk(own, x, y, "-", z)>> : d \in Decls, own \in Texts, x \in {"-", "17"}, y \in {"-", "1"}, z \in {"-", "z"}}
         \cup {<<d, Mk("-", x, y, w, z)>> : d \in Decls, x \in {"-", "true", "3", "17"}, y \in {"-", "1"}, w \in {"-", "0"}, z \in {"-", "z"}}
         \cup {<<d, Mk(own, "-", "-", "-", z)>> : d \in Decls, own \in {"-", "3", "true", "[1, 2]"}, z \in Unknown}
CaseSet == Cases
ASSUME "OUT" \in DOMAIN IOEnv =>
    ndJsonSerialize(IOEnv.OUT, SetToSeq({[decl |-> c[1], sec |-> c[2]] : c \in CaseSet}))

VARIABLE case
Init == case \in CaseSet
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
O == Outcome(case[1], case[2])
Total == O.ok \in BOOLEAN
(* a stored value is never one that the rule forbids, unless it is the default *)
NeverInvalid == O.ok => \/ Source(case[1], case[2]) = "-"
                        \/ Valid(case[1].valid, case[2][Source(case[1], case[2])])
OwnNameWins == "opt" \in DOMAIN case[2] =>
    O = Outcome(case[1], [n \in DOMAIN case[2] \ ({"x", "y", "w"} \cup Unknown) |-> case[2][n]])
RequiredReported == ~case[1].opt /\ Source(case[1], case[2]) = "-" => ~O.ok
UnknownHarmless == O = Outcome(case[1], [n \in DOMAIN case[2] \ Unknown |-> case[2][n]])
=============================================================================
