---------------------------- MODULE MCOldFormat ------------------------------
(* Old-format files: a plain one, every single change of it, and every pair.       *)
EXTENDS OldFormat, SequencesExt, IOUtils, Json
CONSTANT Pairs
Base == [style |-> "plain", data |-> <<"npz">>, model |-> <<>>, ow |-> <<>>, ani |-> <<>>, het |-> <<>>, gen |-> <<>>,
         hetlev |-> "internal", display |-> <<>>, aetable |-> FALSE, aelu |-> <<>>, contact |-> <<>>, ns |-> 2, dyz |-> "yz",
         periodic |-> <<>>, kind |-> "trunc_ellip", structure |-> "massive", econtact |-> "flat", bg |-> FALSE, lag |-> FALSE,
         geoz |-> FALSE, trends |-> FALSE, migrate |-> FALSE, te |-> FALSE, alt |-> FALSE, buffer |-> FALSE, dists |-> TRUE,
         gtrends |-> FALSE, numsim |-> FALSE, origin |-> FALSE, heads |-> "hin", facies |-> <<1, 3, 0>>,
         vals |-> "a", missing |-> "", odd |-> ""]
B3 == {<<TRUE>>, <<FALSE>>}
Values == [style |-> {"prefixed", "mixed", "seq"}, data |-> {<<>>, <<"py", "mat">>, <<"vtr", "h5", "npz">>}, model |-> {<< <<>> >>, << <<"hgs">> >>, << <<"mf6", "mf">> >>},
           ow |-> B3, ani |-> B3, het |-> B3, gen |-> B3, hetlev |-> {"facies", "ae"}, display |-> B3, aetable |-> {TRUE}, aelu |-> B3,
           contact |-> {<<"flat">>, <<"random">>, <<"user">>}, ns |-> {1, 3}, dyz |-> {"", "y", "z"}, periodic |-> B3,
           kind |-> {"ext_par", "sheet"}, structure |-> {"dip", "bulb", "bulb_l", "random", "flat"}, econtact |-> {"random"},
           bg |-> {TRUE}, lag |-> {TRUE}, geoz |-> {TRUE}, trends |-> {TRUE}, migrate |-> {TRUE}, te |-> {TRUE}, alt |-> {TRUE},
           buffer |-> {TRUE}, dists |-> {FALSE}, gtrends |-> {TRUE}, numsim |-> {TRUE}, origin |-> {TRUE}, heads |-> {"gradh", "q_in"},
           facies |-> {<<4>>, <<2, 4>>}, vals |-> {"b"}, missing |-> {"run", "model", "strata", "hydraulics", "flowtrans", "ssm", "hydro", "geometry", "hetlev"},
           odd |-> {"geometry", "structure", "contact", "hetlev", "dataoutputs", "modeloutputs", "ssm_contact"}]
Singles == UNION {{[Base EXCEPT ![k] = v] : v \in Values[k]} : k \in DOMAIN Values}
Doubles == UNION {UNION {{[c EXCEPT ![k] = v] : v \in Values[k]} : k \in DOMAIN Values} : c \in Singles}
(* two more changes that concern an element of some kind, or rough strata *)
Two(c, ks) == LET one == UNION {{[c EXCEPT ![k] = v] : v \in Values[k]} : k \in ks}
              IN  UNION {UNION {{[d EXCEPT ![k] = v] : v \in Values[k]} : k \in ks} : d \in one}
OfElements == {"structure", "econtact", "bg", "lag", "geoz", "trends", "migrate", "te", "alt", "buffer", "dists", "facies", "vals"}
OfStrata == {"ns", "vals", "style", "origin", "dyz", "odd"}
Triples == UNION {Two(c, OfElements) : c \in {[Base EXCEPT !.kind = "ext_par"], [Base EXCEPT !.kind = "sheet"], [Base EXCEPT !.structure = "bulb_l"],
                                              [Base EXCEPT !.structure = "random"]}}
           \cup Two([Base EXCEPT !.contact = <<"random">>], OfStrata)
Possible(c) == /\ c.kind # "trunc_ellip" => c.structure \in {"massive", "dip"} /\ ~c.te
               /\ c.kind = "sheet" => ~c.lag /\ ~c.migrate /\ ~c.buffer
               /\ c.structure \in {"dip", "random", "bulb_l"} => c.dists
               /\ c.missing = "" \/ (c.odd = "" /\ c.style = "plain" /\ c.contact = <<>>)
               /\ c.missing = "run" => FALSE
Cases == {c \in (IF Pairs THEN Doubles \cup Triples ELSE Singles) \cup {Base} \cup Singles : Possible(c)}
(* ---- the file ---- *)
O(k, v) == IF v = <<>> THEN <<>> ELSE k :> v[1]
If(b, r) == IF b THEN r ELSE <<>>
(* incomplete files and files with a value that does not exist *)
SectionOf(o) == CASE o \in {"dataoutputs", "modeloutputs"} -> "run" [] o = "hetlev" -> "model" [] o \in {"ssm", "ssm_contact"} -> "strata"
                  [] o = "hydro" -> "hydraulics" [] OTHER -> "el"
Lacking(o, f) == IF o = "" THEN f ELSE IF o \in DOMAIN f THEN Without(f, {o}) ELSE [f EXCEPT ![SectionOf(o)] = Without(@, {o})]
Odd(o, f) == IF o = "" THEN f ELSE
    [f EXCEPT ![SectionOf(o)] = (o :> IF o \in {"dataoutputs", "modeloutputs"} THEN <<"xyz">> ELSE "xyz") @@ @]
File(c) ==
  LET b == c.vals = "b"                    \* other values: zero as facies, dips above azimuths, falling trends, longer in y
      run == O("modeloutputs", c.model) @@ O("flag_ow", c.ow) @@ O("anisotropy", c.ani) @@ O("het", c.het)
             @@ [dataoutputs |-> c.data, runname |-> "r"] @@ If(c.numsim, [numsim |-> "2"])
      mod == [lx |-> "6", ly |-> "4", lz |-> "4", dx |-> "1.0", hetlev |-> c.hetlev] @@ O("display", c.display) @@ O("periodic", c.periodic)
             @@ If(c.dyz \in {"y", "yz"}, [dy |-> "0.5"]) @@ If(c.dyz \in {"z", "yz"}, [dz |-> "0.25"]) @@ If(c.origin, [x0 |-> "12", y0 |-> "-3.5", z0 |-> "1"])
      ssm == SubSeq(<<"low", "mid", "up">>, 1, c.ns)
      str == [ssm |-> ssm, ssm_top |-> SubSeq(<<"1.5", "3.25", "4">>, 1, c.ns),
              ae |-> <<"el", "q">>, ssm_ae |-> SubSeq(<< <<"el">>, <<"q", "el">>, <<"el", "q">> >>, 1, c.ns),
              ae_prob |-> SubSeq(<< <<"1.0">>, <<"0.25", "0.75">>, <<"0.5", "0.5">> >>, 1, c.ns),
              ae_z_mean |-> SubSeq(<< <<"1.5">>, <<"1", "0.8">>, <<"2", "0.7">> >>, 1, c.ns),
              avul_prob |-> SubSeq(<< <<"0">>, <<"0.5">>, <<"0.1">> >>, 1, c.ns),
              avul |-> SubSeq(<< <<"0", "0">>, <<"0.1", "0.3">>, <<"0.2", "0.2">> >>, 1, c.ns),
              bg |-> IF b THEN <<0, "-4", "25">> ELSE <<4, "11.5", "6">>]
             @@ O("ssm_contact", c.contact) @@ O("save_aelu", c.aelu) @@ If(c.aetable, [ae_table |-> "ae_lu.txt"])
             @@ If(c.contact = <<"random">>, [ssm_contact_model |-> SubSeq(<< <<"0.05", "6", "5">>, <<"0.1", "2", "3">>, <<"0.2", "4", "7">> >>, 1, c.ns)])
      all == [geometry |-> c.kind, structure |-> c.structure, contact |-> c.econtact, facies |-> c.facies]
             @@ If(c.econtact = "random", [contact_model |-> IF b THEN <<"0.02", "1.5", "4">> ELSE <<"0.04", "3", "2">>])
             @@ If(c.alt, [altfacies |-> [i \in 1..Len(c.facies) |-> <<c.facies[1], c.facies[i]>>]])
             @@ If(c.geoz, [geo_ztrend |-> IF b THEN <<"1.5", "0.5">> ELSE <<"0.75", "1.25">>])
             @@ If(c.trends, [k_ztrend |-> <<"0.5", "1.5">>, k_xtrend |-> <<"1", "2">>, n_ztrend |-> <<"0.9", "1.1">>, n_xtrend |-> <<"1.2", "0.8">>])
             @@ If(c.bg, [bg |-> IF b THEN <<0, "-12", "35">> ELSE <<2, "7", "-3">>]) @@ If(c.dists, [dipset_d |-> "0.4"])
      ero == [agg |-> "0.5", dip |-> <<"5", "20">>] @@ If(c.buffer, [buffer |-> "0.3"]) @@ If(c.lag, [lag |-> IF b THEN <<"0.4", 0>> ELSE <<"0.15", 4>>])
             @@ If(c.migrate, [migrate |-> <<"1", "0.5", "-1", "0.25">>])
      el == all @@ (CASE c.kind = "sheet" -> [lens_thickness |-> "0.6", dip |-> <<"0", "15">>, azimuth |-> <<"20", "60">>]
                      [] c.kind = "ext_par" -> ero @@ [width |-> "2.5", depth |-> "0.8", h |-> "0.4", k |-> "0.8", ds |-> "1", eps_factor |-> "0.1",
                                                       channel_no |-> IF b THEN "1" ELSE "2"]
                      [] OTHER -> ero @@ [length |-> "4", width |-> "3", depth |-> "1", el_z |-> "0.2", paleoflow |-> <<"-30", "30">>,
                                          azimuth |-> <<"-20", "45">>] @@ If(c.dists, [bulbset_d |-> "0.3"])
                                  @@ If(c.te, [te_xyz |-> << <<"1", "2", "3">>, <<"2.5", "1", "1.5">> >>]))
      q == [geometry |-> "sheet", structure |-> "massive", contact |-> "flat", facies |-> <<2>>, lens_thickness |-> "0.5"]
      hyd == [hydro |-> <<"sG", "oG", "cS", "mS", "C">>, k_h |-> <<"0.1", "0.2", "0.3", "0.4", "0.5">>, sig_y |-> <<"0.1", "0.2", "0", "0.3", "0.5">>,
              k_ratio |-> <<"1", "2", "1.5", "3", "4">>, n |-> <<"0.1", "0.2", "0.3", "0.25", "0.15">>, sig_n |-> <<"0.001", "0.002", "0", "0.001", "0">>,
              ycorlengths |-> [i \in 1..5 |-> <<"2", "1", "0.5">>], ncorlengths |-> [i \in 1..5 |-> <<"1", "2", "0.25">>]]
             @@ O("gen", c.gen) @@ If(c.gtrends, [k_ztrend |-> <<"0.6", "1.6">>, n_xtrend |-> <<"1.3", "0.7">>])
      flow == CASE c.heads = "hin" -> [hin |-> <<"1", "0", "0">>, hout |-> <<"0.5", "0", "0">>] [] c.heads = "q_in" -> [q_in |-> "0.2"]
                [] OTHER -> [gradh |-> "0.01"]
      f0 == [run |-> run, model |-> mod, strata |-> str, el |-> el, q |-> q, hydraulics |-> hyd, flowtrans |-> flow]
      f == Odd(c.odd, Lacking(c.missing, f0))
  IN  CASE c.style = "prefixed" -> [s \in DOMAIN f |-> Aliased(f[s])]
        [] c.style = "seq" -> [f EXCEPT !.strata = Rename(@, "ssm", "l_seq")]
        [] c.style = "mixed" -> [s \in DOMAIN f |-> IF s \in {"run", "el"} THEN Aliased(f[s]) ELSE f[s]]
        [] OTHER -> f
Ordinary(c) == LET f == File(c) IN [s \in DOMAIN f |-> Plain(f[s])]
Refuse(c) == c.missing # "" \/ c.odd # "" \/ Refused(Ordinary(c))
New(c) == IF c.missing # "" \/ c.odd # "" THEN <<>> ELSE Translate(File(c))
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq({[old |-> File(c), new |-> New(c), refused |-> Refuse(c),
                                    channelmig |-> c.kind = "ext_par" /\ c.migrate, dev |-> SetToSeq({k \in DOMAIN Base : c[k] # Base[k]})] : c \in Cases}))
VARIABLE case
Init == case \in {c \in Singles \cup {Base} : Possible(c) /\ c.missing = "" /\ c.odd = ""}
Spec == Init /\ [][UNCHANGED case]_case
IsOld == Old(File(case)) /\ ~Old(Translate(File(case)))
(* the names of the options do not matter *)
NamesIrrelevant == Translate(File(case)) = Translate([s \in DOMAIN File(case) |-> Aliased(Plain(File(case)[s]))])
NothingOld == \A s \in DOMAIN Translate(File(case)) : DOMAIN Translate(File(case))[s] \cap
                 {"hetlev", "display", "ssm", "ssm_top", "ssm_contact", "el_z", "dipset_d", "bulbset_d", "lag", "bg", "hydro", "gen", "flag_ow"} = {}
=============================================================================
