---------------------------- MODULE MCParamFile -----------------------------
(* Reading a file section by section, as a state machine over a bounded set of *)
(* files; the files are written out for the conformance runs.                  *)
EXTENDS ParamFile, IOUtils, Json, SequencesExt
CONSTANT Deviations      \* 1 or 2 fields that differ from a base file


NoAlt == <<>>
Both == <<"e", "other">>
Base(g) == [secs |-> Required, flow |-> FALSE, hyd |-> <<"A", "B", "C">>, outs |-> <<"npz">>, dx |-> "1", dy |-> "", dz |-> "",
            n |-> 2, cms |-> <<<<"flat", "2">>>>, bgf |-> <<"A", "C">>, geo |-> g,
            struct |-> "massive", dd |-> FALSE, bd |-> FALSE, ecm |-> <<"flat">>, fac |-> <<"B", "C">>,
            alt |-> NoAlt, ebg |-> "", lagh |-> "", lagf |-> "", drop |-> "", ae |-> <<"e", "other">>, ins |-> <<Both, Both>>]
(* a second base with everything set *)
Full(g) == [Base(g) EXCEPT !.flow = TRUE, !.outs = <<"h5", "mf6", "vtr">>, !.dy = "2", !.dz = "0.5",
            !.struct = "dip", !.dd = TRUE, !.bd = TRUE, !.ecm = <<"random", "0.1", "2", "3">>,
            !.alt = <<<<"C">>, <<"B", "A">>>>, !.ebg = "B",
            !.lagh = (IF Erosive(g) THEN "0.3" ELSE ""), !.lagf = (IF Erosive(g) THEN "C" ELSE ""),
            !.n = 3, !.cms = <<<<"random", "1.5", "0.1", "2", "3">>, <<"flat", "3">>>>, !.bgf = <<"C", "A", "B">>,
            !.ins = <<Both, <<"other">>, <<"e">>>>]

StrataCMs == {<<"flat", "2">>, <<"random", "1.5", "0.1", "2", "3">>, <<"\"flat\"", "-2">>, <<"FLAT", "1e1">>,
              <<"flat">>, <<"flat", "1", "2">>, <<"random", "1">>, <<"random", "1", "0.1", "2">>,
              <<"random", "1", "0.1", "2", "3", "1">>, <<"bumpy", "1">>, <<"flat", "abc">>,
              <<"random", "1", "x", "2", "3">>, <<"'random'", "1", "0.1", "2", "7.25">>, <<"random", "1", "0.1", "2", "y">>}
ElementCMs == {<<"flat">>, <<"random", "0.1", "2", "3">>, <<"'flat'">>, <<"Random", "1", "1", "1">>, <<"flat", "1">>,
               <<"random">>, <<"random", "1", "2">>, <<"random", "1", "2", "3", "1">>, <<"wavy">>, <<"random", "1", "2", "z">>, <<>>}
Dom(k, b) ==
    CASE k = "secs" -> {Required \ {s} : s \in Required} \cup {Required}
      [] k = "flow" -> BOOLEAN
      [] k = "hyd" -> {<<"A", "B", "C">>, <<"C", "B", "A">>, <<"B", "D", "A", "C">>, <<"B", "C">>, <<"A", "B">>, <<"AA", "BB", "CC">>}
      [] k = "outs" -> {<<>>, <<"npz">>, <<"mf">>, <<"mf6">>, <<"hgs">>, <<"vtr", "mf">>, <<"npz", "bogus">>, <<"h5", "mat", "py">>}
      [] k \in {"dx", "dy", "dz"} -> {"", "0.5", "2"}
      [] k = "n" -> 1..3
      [] k = "cms" -> {<<>>, <<<<"flat", "2">>, <<"flat", "1">>>>, <<<<"flat", "2">>, <<"flat", "1">>, <<"flat", "0">>>>}
                      \cup {<<c>> : c \in StrataCMs} \cup {<<<<"flat", "3">>, c>> : c \in StrataCMs} \cup {<<c, <<"flat", "3">>>> : c \in StrataCMs}
      [] k = "bgf" -> {<<"A">>, <<"A", "C">>, <<"B", "A">>, <<"A", "Z">>, <<"Z", "A">>, <<"C", "B", "A">>, <<"A", "B", "Z">>}
      [] k = "struct" -> {"massive", "dip", "bulb", "bulb_sets", "random", "heap"}
      [] k \in {"dd", "bd"} -> BOOLEAN
      [] k = "ecm" -> ElementCMs
      [] k = "fac" -> {<<"B", "C">>, <<"C">>, <<"A", "B", "C">>, <<"B", "Z">>, <<"Z", "B">>, <<"C", "C">>, <<"b", "C">>}
      [] k = "alt" -> {NoAlt, <<<<"B", "C">>, <<"C">>>>, <<<<"C">>, <<"A", "B">>>>, <<<<"C">>, <<"Z">>>>, <<<<"B", "Z">>, <<"C">>>>,
                       <<<<"B">>>>, <<<<"B">>, <<"C">>, <<"A">>>>}
      [] k = "ebg" -> {"", "A", "B", "Z", "C"}
      [] k = "lagh" -> IF Erosive(b.geo) THEN {"", "0.3", "0", "0.0"} ELSE {""}
      [] k = "lagf" -> IF Erosive(b.geo) THEN {"", "A", "C", "Z"} ELSE {""}
      [] k = "geo" -> {b.geo, "cube", "Sheet"}
      [] k = "ae" -> {<<"e", "other">>, <<"other", "e">>, <<"e">>, <<"other">>, <<"E", "other">>}
      [] k = "ins" -> LET S == {Both, <<"e">>, <<"other", "e">>, <<"nosuch">>, <<"e", "nosuch">>, <<"Other", "e">>}
                      IN  {[b.ins EXCEPT ![i] = s] : i \in 1..Len(b.ins), s \in S} 
      [] k = "drop" -> {""} \cup GlobalNeeds \cup ElementNeeds(b.geo)
Fields == {"secs", "flow", "hyd", "outs", "dx", "dy", "dz", "n", "cms", "bgf", "struct", "dd", "bd", "ecm", "fac", "alt",
           "ebg", "lagh", "lagf", "geo", "drop", "ae", "ins"}
Bases == UNION {{Base(g), Full(g)} : g \in {"sheet", "trough", "channel"}}
One(S) == UNION {UNION {{[f EXCEPT ![k] = v] : v \in Dom(k, f)} : k \in Fields} : f \in S}
(* the element's own fields in all combinations *)
Elements == {[Base(g) EXCEPT !.struct = s, !.dd = a, !.bd = b, !.lagh = (IF Erosive(g) THEN h ELSE ""), !.lagf = (IF Erosive(g) THEN lf ELSE ""), !.ebg = e] :
               g \in {"sheet", "trough", "channel"}, s \in {"massive", "dip", "bulb", "bulb_sets", "random", "heap"},
               a \in BOOLEAN, b \in BOOLEAN, h \in {"", "0.3", "0"}, lf \in {"", "C", "Z"}, e \in {"", "B"}}
(* the file is well-formed text: a lag facies without lag height is not "used", left out; absent sections hold nothing *)
Sensible(f) == /\ (f.lagf = "Z" => HasLag(f))
               /\ (f.geo \in {"cube", "Sheet"} => f.lagh = "" /\ f.lagf = "")
Files == {f \in (IF Deviations = 1 THEN One(Bases) ELSE One(One(Bases))) \cup Elements : Sensible(f)}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Files))

VARIABLES file, phase, status
vars == <<file, phase, status>>
Steps == <<"sections", "run", "hydraulics", "model", "strata", "flow", "element", "names">>
Holds(s) == CASE s = "sections" -> SectionsOk(file) [] s = "run" -> RunOk(file) [] s = "hydraulics" -> HydOk(file)
              [] s = "model" -> ModelOk(file) [] s = "strata" -> StrataOk(file) [] s = "flow" -> FlowOk(file)
              [] s = "element" -> ElementOk(file) [] s = "names" -> NamesOk(file)
Init == file \in Files /\ phase = 1 /\ status = "reading"
Read == /\ status = "reading" /\ phase <= Len(Steps)
        /\ IF Holds(Steps[phase])
           THEN phase' = phase + 1 /\ status' = (IF phase = Len(Steps) THEN "accepted" ELSE "reading")
           ELSE status' = "refused" /\ UNCHANGED phase
        /\ UNCHANGED file
Next == Read
Spec == Init /\ [][Next]_vars
AcceptedExactly == /\ status = "accepted" => Accept(file)
                   /\ status = "refused" => ~Accept(file)
(* in an accepted file every resolved number names the facies that was written *)
NamesResolve ==
    status = "accepted" =>
      LET r == Resolved(file)
      IN  /\ \A i \in 1..Len(file.fac) : file.hyd[r.fac[i] + 1] = file.fac[i]
          /\ \A i \in 1..file.n : file.hyd[r.bgf[i] + 1] = file.bgf[i]
          /\ Len(r.alt) \in {0, Len(file.fac)}
          /\ r.ebg = None <=> file.ebg = ""
          /\ r.lagf # None => file.hyd[r.lagf + 1] = file.lagf
          /\ \A i \in 1..3 : r.d[i] > 0
NoFlowWithoutSection == status = "accepted" /\ ~file.flow => Rng(file.outs) \cap FlowFormats = {}
=============================================================================
