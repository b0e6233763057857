---------------------------- MODULE OptionTable -----------------------------
(* The options of a parameter file: the type, shape, default and necessity of  *)
(* each, and what a file that gives (or leaves out) one of them is read as.    *)
(*                                                                            *)
(* All shapes are those in a file with three strata that hold one, two and one *)
(* architectural elements, and four hydrofacies. The element sections are "sh" *)
(* (a sheet), "tr" (a trough) and "ch" (a channel).                            *)
(*                                                                            *)
(* An option has a format ("new" or "old"), further names (alts), and a place  *)
(* in the settings (at: section and name; <<>> if it is only checked).         *)
EXTENDS Options, TLC

NStrata == 3
InStrata == List(<<Leaf(1), Leaf(2), Leaf(1)>>)
NFacies == 4

Scalar == <<>>                                   \* no dimension at all
Pair == <<Leaf(2)>>
Free == Leaf(-1)
PerStratum == <<Leaf(NStrata)>>
PerFacies == <<Leaf(NFacies)>>

(* values that are not numbers *)
Unset == -7777777
NoValue == -8888888                              \* a number that is not given (NaN)
Req == [t |-> "req"]
Def(x) == [t |-> "def", v |-> x]
Off == Def(Leaf(Unset))
Zero == Def(Leaf(0))
Row(fmt, sec, name, alts, at, type, dims, need) ==
    [fmt |-> fmt, sec |-> sec, name |-> name, alts |-> alts, at |-> at, type |-> type, dims |-> dims, need |-> need]
O(sec, name, type, dims, need) == Row("new", sec, name, {}, <<sec, name>>, type, dims, need)

RunOptions == {
    O("run", "numsim", "int", Scalar, Def(Leaf(1000))),
    O("run", "overwrite_old_output", "bool", Scalar, Def(Leaf(0)))}
ModelOptions ==
    {O("model", n, "float", Scalar, Zero) : n \in {"x0", "y0", "z0"}}
    \cup {O("model", n, "float", Scalar, Req) : n \in {"dx", "lx", "ly", "lz"}}
    \cup {O("model", n, "float", Scalar, [t |-> "dx"]) : n \in {"dy", "dz"}}
    \cup {O("model", "periodic", "bool", Scalar, Def(Leaf(0)))}
    \cup {O("model", n, "bool", Scalar, Def(Leaf(1000))) : n \in {"hydraulics", "anisotropy", "heterogeneity"}}
    \cup {O("model", "heterogeneity_level", "level", Scalar, Def(Leaf(2000)))}
StrataOptions ==
    {O("strata", n, "float", <<Leaf(NStrata), InStrata>>, Req) : n \in {"ae_prob", "ae_z_mean"}}
    \cup {O("strata", "avul_prob", "float", <<Leaf(NStrata), Leaf(1)>>, Req),
          O("strata", "avul", "float", <<Leaf(NStrata), Leaf(2)>>, Req)}
    \cup {O("strata", n, "float", PerStratum, Req) : n \in {"bg_azim", "bg_dip"}}
Trends == {"k_ztrend", "k_xtrend", "n_ztrend", "n_xtrend"}
ElementOptions(s) ==
    {O(s, n, "float", Pair, Off) : n \in Trends \cup {"size_ztrend"}}
    \cup {O(s, n, "float", Pair, Def(List(<<Leaf(0), Leaf(0)>>))) : n \in {"dip", "azimuth"}}
    \cup {O(s, n, "float", Scalar, Def(Leaf(NoValue))) : n \in {"bg_azim", "bg_dip"}}
    \cup {O(s, "dipset_dist", "float", Scalar, Off)}
ErosiveOptions(s) ==
    {O(s, n, "float", Scalar, Req) : n \in {"agg", "width", "depth"}}
    \cup {O(s, n, "float", Scalar, Zero) : n \in {"buffer", "lag_height"}}
SheetOptions == ElementOptions("sh") \cup {O("sh", "lens_thickness", "float", Scalar, Req)}
TroughOptions == ElementOptions("tr") \cup ErosiveOptions("tr") \cup {
    O("tr", "bulbset_dist", "float", Scalar, Off),
    O("tr", "length", "float", Scalar, Req),
    O("tr", "trough_density", "float", Scalar, Req),
    O("tr", "paleoflow", "float", Pair, Req),
    O("tr", "te_xyz", "float", <<Free, Leaf(3)>>, Off),
    O("tr", "migrate", "float", <<Leaf(4)>>, Off)}
ChannelOptions == ElementOptions("ch") \cup ErosiveOptions("ch")
    \cup {O("ch", n, "float", Scalar, Req) : n \in {"h", "k", "ds", "eps_factor"}}
    \cup {O("ch", "channel_no", "int", Scalar, Req)}
    \cup {O("ch", n, "float", Scalar, Zero) : n \in {"mig", "flow_angle"}}
HydraulicsOptions ==
    {O("hydraulics", n, "float", PerFacies, Req) : n \in {"k_h", "sig_y", "k_ratio", "n", "sig_n"}}
    \cup {O("hydraulics", n, "float", <<Leaf(NFacies), Leaf(3)>>, Req) : n \in {"ycorlengths", "ncorlengths"}}
    \cup {O("hydraulics", n, "float", Pair, Off) : n \in Trends}
FlowOptions ==
    {O("flowtrans", n, "float", <<Leaf(3)>>, Off) : n \in {"hin", "hout"}}
    \cup {O("flowtrans", n, "float", Scalar, Off) : n \in {"gradh", "q_in"}}
NewTable == RunOptions \cup ModelOptions \cup StrataOptions \cup SheetOptions \cup TroughOptions \cup ChannelOptions
         \cup HydraulicsOptions \cup FlowOptions

(* ---- the old format: other names, and another place for some ---- *)
D(sec, name, alt, at, type, dims, need) == Row("old", sec, name, IF alt = "" THEN {} ELSE {alt}, at, type, dims, need)
Same(sec, name, alt, type, dims, need) == D(sec, name, alt, <<sec, name>>, type, dims, need)
R(sec, n, need) == Same(sec, n, "", "float", Scalar, need)
OldRun == {
    Same("run", "numsim", "", "int", Scalar, Def(Leaf(1000))),
    D("run", "anisotropy", "flag_anisotropy", <<"model", "anisotropy">>, "bool", Scalar, Def(Leaf(1000))),
    D("run", "het", "flag_het", <<"model", "heterogeneity">>, "bool", Scalar, Def(Leaf(1000))),
    D("run", "flag_ow", "", <<"run", "overwrite_old_output">>, "bool", Scalar, Def(Leaf(0)))}
OldModel ==
    {R("model", n, Zero) : n \in {"x0", "y0", "z0"}} \cup {R("model", n, Req) : n \in {"dx", "lx", "ly", "lz"}}
    \cup {R("model", n, [t |-> "dx"]) : n \in {"dy", "dz"}}
    \cup {Same("model", "periodic", "flag_periodic", "bool", Scalar, Def(Leaf(0))),
          D("model", "hetlev", "", <<"model", "heterogeneity_level">>, "level", Scalar, Req)}
OldStrata == {
    Same("strata", "ae_prob", "ll_ae_prob", "float", <<Leaf(NStrata), InStrata>>, Req),
    Same("strata", "ae_z_mean", "ll_ae_z_mean", "float", <<Leaf(NStrata), InStrata>>, Req),
    Same("strata", "avul_prob", "ll_avul_prob", "float", <<Leaf(NStrata), Leaf(1)>>, Req),
    Same("strata", "avul", "ll_avul", "float", <<Leaf(NStrata), Leaf(2)>>, Req),
    D("strata", "ssm_top", "r_ssm_top", <<>>, "float", PerStratum, Req),
    D("strata", "ssm_contact_model", "ll_ssm_contact_model", <<>>, "float", <<Leaf(NStrata), Leaf(3)>>, Off),
    D("strata", "bg", "", <<>>, "float", <<Leaf(3)>>, Req)}
ZeroPair == Def(List(<<Leaf(0), Leaf(0)>>))
OldTrends(s) == {Same(s, "k_ztrend", "r_k_ztrend", "float", Pair, Off), Same(s, "k_xtrend", "r_k_xtrend", "float", Pair, Off),
                 Same(s, "n_ztrend", "r_n_ztrend", "float", Pair, Off), Same(s, "n_xtrend", "r_n_xtrend", "float", Pair, Off)}
OldElement(s) == OldTrends(s) \cup {
    D(s, "geo_ztrend", "r_geo_ztrend", <<s, "size_ztrend">>, "float", Pair, Off),
    D(s, "contact_model", "r_contact_model", <<>>, "float", <<Leaf(3)>>, Off),
    D(s, "dipset_d", "", <<s, "dipset_dist">>, "float", Scalar, Off),
    D(s, "bg", "", <<>>, "float", <<Leaf(3)>>, Off),
    Same(s, "dip", "r_dip", "float", Pair, IF s = "sh" THEN ZeroPair ELSE Req)}
OldErosive(s) == {R(s, n, Req) : n \in {"agg", "width", "depth"}} \cup {R(s, "buffer", Zero)}
OldSheet == OldElement("sh") \cup {R("sh", "lens_thickness", Req), Same("sh", "azimuth", "r_azimuth", "float", Pair, ZeroPair)}
OldTrough == OldElement("tr") \cup OldErosive("tr") \cup {
    R("tr", "length", Req),
    D("tr", "el_z", "", <<"tr", "trough_density">>, "float", Scalar, Req),
    D("tr", "bulbset_d", "", <<"tr", "bulbset_dist">>, "float", Scalar, Off),
    Same("tr", "paleoflow", "r_paleoflow", "float", Pair, Req),
    Same("tr", "azimuth", "r_azimuth", "float", Pair, Req),
    Same("tr", "te_xyz", "ll_te_xyz", "float", <<Free, Leaf(3)>>, Off),
    Same("tr", "migrate", "r_migrate", "float", <<Leaf(4)>>, Off),
    D("tr", "lag", "r_lag", <<>>, "float", Pair, Off)}
OldChannel == OldElement("ch") \cup OldErosive("ch") \cup {R("ch", n, Req) : n \in {"h", "k", "ds", "eps_factor"}}
    \cup {D("ch", "channel_no", "", <<>>, "float", Scalar, Req), D("ch", "lag", "r_lag", <<>>, "float", Pair, Off)}
OldHydraulics == OldTrends("hydraulics") \cup {
    D("hydraulics", "gen", "flag_gen", <<"model", "hydraulics">>, "bool", Scalar, Def(Leaf(1000))),
    Same("hydraulics", "k_h", "r_k_h", "float", PerFacies, Req), Same("hydraulics", "sig_y", "r_sig_y", "float", PerFacies, Req),
    Same("hydraulics", "k_ratio", "r_k_ratio", "float", PerFacies, Req), Same("hydraulics", "n", "r_n", "float", PerFacies, Req),
    Same("hydraulics", "sig_n", "r_sig_n", "float", PerFacies, Req),
    Same("hydraulics", "ycorlengths", "ll_ycorlengths", "float", <<Leaf(NFacies), Leaf(3)>>, Req),
    Same("hydraulics", "ncorlengths", "ll_ncorlengths", "float", <<Leaf(NFacies), Leaf(3)>>, Req)}
OldFlow == {[o EXCEPT !.fmt = "old"] : o \in FlowOptions}
OldTable == OldRun \cup OldModel \cup OldStrata \cup OldSheet \cup OldTrough \cup OldChannel \cup OldHydraulics \cup OldFlow
Table == TLCEval(NewTable \cup OldTable)

(* The texts that occur as entries. In a tree of texts the leaves are positions *)
(* in this list; values are in thousandths.                                     *)
Texts == <<"0", "2", "+5", "-3", "1", "07", "11", "12", "13", "14",
           "0.25", "-1.5", "1e1", "4.", ".5", "2E-1", "3.0", "6.75", "8.125",
           "true", "False", "YES", "no", "facies", "internal",
           "x", "1x", "--1", "none", "ae", "tru", "Internal">>
Whole == "0" :> 0 @@ "2" :> 2000 @@ "+5" :> 5000 @@ "-3" :> -3000 @@ "1" :> 1000 @@ "07" :> 7000
         @@ "11" :> 11000 @@ "12" :> 12000 @@ "13" :> 13000 @@ "14" :> 14000
Fractional == "0.25" :> 250 @@ "-1.5" :> -1500 @@ "1e1" :> 10000 @@ "4." :> 4000 @@ ".5" :> 500 @@ "2E-1" :> 200
              @@ "3.0" :> 3000 @@ "6.75" :> 6750 @@ "8.125" :> 8125
YesNo == "true" :> 1000 @@ "False" :> 0 @@ "YES" :> 1000 @@ "no" :> 0
         @@ "1" :> 1000 @@ "0" :> 0 @@ "2" :> 1000 @@ "07" :> 1000 @@ "11" :> 1000 @@ "12" :> 1000 @@ "13" :> 1000
         @@ "14" :> 1000
Numbers == TLCEval(Whole @@ Fractional)
Level == "facies" :> 1000 @@ "internal" :> 2000

Meaning(type) == CASE type = "int" -> Whole
                   [] type = "float" -> Numbers
                   [] type = "bool" -> YesNo
                   [] type = "level" -> Level

(* the values of the texts of x *)
RECURSIVE Values(_, _)
Values(x, type) == IF IsList(x) THEN List([i \in 1..Len(x.c) |-> Values(x.c[i], type)])
                   ELSE Leaf(Meaning(type)[Texts[x.v]])
OfType(x, type) == LET ls == TLCEval(Leaves(x)) IN \A i \in 1..Len(ls) : Texts[ls[i]] \in DOMAIN Meaning(type)

(* what giving the option o the (text) value x, or leaving it out, means *)
Given(o, x) ==
    IF ~OfType(x, o.type) THEN Reject
    ELSE IF o.dims = Scalar THEN IF IsList(x) THEN Reject ELSE Accept(Values(x, o.type))
    ELSE Parse([k |-> "dims", d |-> o.dims], Leaf(0), Values(x, o.type))
LeftOut(o, dx) == CASE o.need.t = "req" -> Reject
                    [] o.need.t = "dx" -> Accept(Leaf(dx))
                    [] o.need.t = "def" -> Accept(o.need.v)

(* Options whose meaning follows from this one: the cell width and height are   *)
(* the cell length where they are left out; a lag layer needs a facies.         *)
(* In the old format background and lag are lists of facies and numbers.         *)
Dependents(o) == CASE o.name = "dx" -> {<<"model", "dy">>, <<"model", "dz">>}
                   [] o.name = "lag_height" -> {<<o.sec, "lag_facies">>}
                   [] o.fmt = "old" /\ o.name = "bg" -> {<<o.sec, "bg">>, <<o.sec, "bg_facies">>, <<o.sec, "bg_azim">>, <<o.sec, "bg_dip">>}
                   [] o.fmt = "old" /\ o.name = "lag" -> {<<o.sec, "lag">>, <<o.sec, "lag_height">>, <<o.sec, "lag_facies">>}
                   [] o.name = "ssm_top" -> {<<"strata", "ssm_top">>, <<"strata", "contact_models">>}
                   [] OTHER -> {}
=============================================================================
