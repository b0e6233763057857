------------------------------ MODULE Sections ------------------------------
(* What a section gives for one declared option: its typed value, its default *)
(* or a rejection.  A declaration is                                          *)
(*   [type, opt, def, alts, valid]                                            *)
(* and a section a function from the names that occur to their texts.  Values *)
(* are written as a type letter followed by the value.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Err(k) == [ok |-> FALSE, val |-> k]
Val(v) == [ok |-> TRUE, val |-> v]

Ints == "3" :> "i3" @@ "-2" :> "i-2" @@ "0" :> "i0" @@ "1" :> "i1" @@ "17" :> "i17" @@ "007" :> "i7" @@ "00" :> "i0" @@ "+1" :> "i1" @@ "42" :> "i42"
Floats == "3" :> "f3.0" @@ "-2" :> "f-2.0" @@ "0" :> "f0.0" @@ "1" :> "f1.0" @@ "17" :> "f17.0"
          @@ "007" :> "f7.0" @@ "3.5" :> "f3.5" @@ "1e3" :> "f1000.0" @@ "-1.0" :> "f-1.0" @@ "0.0" :> "f0.0"
          @@ "00" :> "f0.0" @@ "+1" :> "f1.0" @@ "42" :> "f42.0" @@ "42.5" :> "f42.5"
Bools == "true" :> "bT" @@ "tRuE" :> "bT" @@ "YES" :> "bT" @@ "yes" :> "bT" @@ "1" :> "bT" @@ "3" :> "bT"
         @@ "17" :> "bT" @@ "007" :> "bT" @@ "false" :> "bF" @@ "False" :> "bF" @@ "NO" :> "bF" @@ "no" :> "bF" @@ "0" :> "bF"
         @@ "00" :> "bF" @@ "42" :> "bT"
Lists == "3" :> "l[3]" @@ "-2" :> "l[-2]" @@ "0" :> "l[0]" @@ "1" :> "l[1]" @@ "17" :> "l[17]" @@ "007" :> "l[7]" @@ "00" :> "l[0]" @@ "+1" :> "l[1]" @@ "42" :> "l[42]" @@ "[[4, 2]]" :> "l[[4, 2]]"
         @@ "[1, 2]" :> "l[1, 2]" @@ "[1, 17]" :> "l[1, 17]" @@ "[17, 1]" :> "l[17, 1]"
         @@ "[[1, 2], [3, 17]]" :> "l[[1, 2], [3, 17]]" @@ "[[[17], [1]]]" :> "l[[[17], [1]]]" @@ "[]" :> "l[]"
         @@ "[[1, 2, 17], [3]]" :> "l[[1, 2, 17], [3]]" @@ "[[1], [2, 17, 3, 4]]" :> "l[[1], [2, 17, 3, 4]]"
         @@ "[[[1], [2, 3]], [[1, 2, 3, 17]]]" :> "l[[[1], [2, 3]], [[1, 2, 3, 17]]]"
         @@ "[[1, 2, 3], [3, 2, 1], [5]]" :> "l[[1, 2, 3], [3, 2, 1], [5]]" @@ "[1, 2, 3, 4, 17, 5]" :> "l[1, 2, 3, 4, 17, 5]"
Texts == DOMAIN Ints \cup DOMAIN Floats \cup DOMAIN Bools \cup DOMAIN Lists
         \cup {"abc", "", "maybe", "-1.0", "0.0", "[1, a]", "nope", "t", "on", "off", "y", "n", "T", "default", "None", "none"}

(* the texts of which some entry is larger than 5; "le5" declares those invalid *)
Above5 == {"17", "007", "42", "42.5", "1e3", "[1, 17]", "[17, 1]", "[[1, 2], [3, 17]]", "[[[17], [1]]]", "[[1, 2, 17], [3]]",
           "[[1], [2, 17, 3, 4]]", "[[[1], [2, 3]], [[1, 2, 3, 17]]]", "[1, 2, 3, 4, 17, 5]"}
(* "word" declares valid only these texts *)
Words == {"abc", "true", "3"}
Valid(rule, text) == CASE rule = "all" -> TRUE
                       [] rule = "le5" -> text \notin Above5
                       [] rule = "word" -> text \in Words

Table(type) == CASE type = "int" -> Ints [] type = "float" -> Floats
                 [] type = "bool" -> Bools [] type = "list" -> Lists
Convert(type, text) ==
    IF type = "str" THEN Val("s" \o text)
    ELSE IF text \in DOMAIN Table(type) THEN Val(Table(type)[text])
    ELSE Err("ValueError")

(* the name whose text counts: the option's own, else the first alternative present *)
Source(decl, sec) ==
    IF "opt" \in DOMAIN sec THEN "opt"
    ELSE LET present == {i \in 1..Len(decl.alts) : decl.alts[i] \in DOMAIN sec}
         IN  IF present = {} THEN "-"
             ELSE decl.alts[CHOOSE i \in present : \A j \in present : i <= j]

Outcome(decl, sec) ==
    LET src == Source(decl, sec)
    IN  IF src = "-"
        THEN IF decl.opt THEN Val(decl.def) ELSE Err("MissingOptionError")
        ELSE LET v == Convert(decl.type, sec[src])
             IN  IF ~v.ok THEN v
                 ELSE IF ~Valid(decl.valid, sec[src]) THEN Err("ValueError")
                 ELSE v

(* names that must be reported as unknown / may be *)
MustWarn(decl, sec) == DOMAIN sec \ ({"opt", "second"} \cup {decl.alts[i] : i \in 1..Len(decl.alts)})
MayWarn(decl, sec) == DOMAIN sec \ {"opt", "second"}
=============================================================================
