----------------------------- MODULE ParamFile ------------------------------
(* When a parameter file is accepted, and what its names resolve to.           *)
(* A file is a record                                                          *)
(*   secs     the required sections that are present                           *)
(*   flow     whether the flow section is present                              *)
(*   hyd      the hydrofacies                                                  *)
(*   outs     requested outputs                                                *)
(*   dx,dy,dz spacing texts, "" if absent                                      *)
(*   n        number of strata                                                 *)
(*   cms      contact models of the strata (each a sequence of texts)          *)
(*   bgf      background facies of the strata                                  *)
(*   geo, struct, dd, bd, ecm, fac, alt, ebg, lagh, lagf   one element         *)
(*   drop     a required option that is left out, "" for none                  *)
(*   ae       the listed element names                                         *)
(*   ins      the element names of each stratum (both where none are given)    *)
(* the element sections of the file are "e" (described above) and "other"      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
IndexOf(x, s) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
None == -1

Formats == {"vtr", "py", "mat", "npz", "h5", "mf", "mf6", "hgs"}
FlowFormats == {"mf", "mf6", "hgs"}
Required == {"run", "model", "strata", "hydraulics"}

(* the numbers that occur as texts, in thousandths *)
Num == "1" :> 1000 @@ "2" :> 2000 @@ "3" :> 3000 @@ "1.5" :> 1500 @@ "0.1" :> 100 @@ "0.5" :> 500
       @@ "-2" :> -2000 @@ "0" :> 0 @@ "0.0" :> 0 @@ "0.3" :> 300 @@ "7.25" :> 7250 @@ "1e1" :> 10000
IsNum(t) == t \in DOMAIN Num
Mode(t) == CASE t \in {"flat", "\"flat\"", "'flat'", "FLAT"} -> "flat"
             [] t \in {"random", "\"random\"", "'random'", "Random"} -> "random"
             [] OTHER -> "?"
(* contact models: [mode, (elevation,) (variance, correlation lengths)] *)
ContactOk(cm, depth) ==
    LET k == IF depth THEN 2 ELSE 1
    IN  /\ Len(cm) >= k
        /\ Mode(cm[1]) # "?"
        /\ Len(cm) = k + (IF Mode(cm[1]) = "flat" THEN 0 ELSE 3)
        /\ \A i \in 2..Len(cm) : IsNum(cm[i])
Contact(cm, depth) == <<Mode(cm[1])>> \o [i \in 1..(Len(cm) - 1) |-> Num[cm[i + 1]]]

Structures(geo) == CASE geo = "trough" -> {"massive", "dip", "bulb", "bulb_sets", "random"}
                     [] OTHER -> {"massive", "dip"}
Erosive(geo) == geo \in {"trough", "channel"}
HasLag(f) == Erosive(f.geo) /\ f.lagh # "" /\ Num[f.lagh] # 0

(* options an element, the strata, the model or the hydraulics cannot do without *)
ElementNeeds(geo) ==
    {"contact_model", "facies", "structure", "geometry"}
    \cup (IF Erosive(geo) THEN {"agg", "width", "depth"} ELSE {})
    \cup (CASE geo = "sheet" -> {"lens_thickness"}
            [] geo = "trough" -> {"length", "trough_density", "paleoflow"}
            [] geo = "channel" -> {"h", "k", "ds", "eps_factor", "channel_no"}
            [] OTHER -> {})
GlobalNeeds == {"dx", "lx", "ly", "lz", "strata", "strata_contact_models", "ae", "ae_in_strata", "ae_prob",
                "ae_z_mean", "avul_prob", "avul", "bg_facies", "bg_azim", "bg_dip", "hydrofacies", "k_h", "sig_y",
                "k_ratio", "n", "sig_n", "ycorlengths", "ncorlengths"}

Known(f, names) == names \subseteq Rng(f.hyd)

SectionsOk(f) == Required \subseteq f.secs
RunOk(f) == Rng(f.outs) \subseteq Formats
HydOk(f) == f.drop \notin {"hydrofacies", "k_h", "sig_y", "k_ratio", "n", "sig_n", "ycorlengths", "ncorlengths"}
ModelOk(f) == f.dx # "" /\ f.drop \notin {"dx", "lx", "ly", "lz"}
StrataOk(f) == /\ f.drop \notin GlobalNeeds
               /\ Len(f.cms) = f.n - 1
               /\ \A i \in 1..Len(f.cms) : ContactOk(f.cms[i], TRUE)
               /\ Len(f.bgf) \in {f.n}
               /\ Known(f, Rng(f.bgf))
ElementSections == {"e", "other"}
NamesOk(f) == /\ ElementSections \subseteq Rng(f.ae)
              /\ \A i \in 1..f.n : i <= Len(f.ins) => Rng(f.ins[i]) \subseteq ElementSections
FlowOk(f) == Rng(f.outs) \cap FlowFormats # {} => f.flow
ElementOk(f) ==
    /\ f.geo \in {"sheet", "trough", "channel"}
    /\ f.drop \notin ElementNeeds(f.geo)
    /\ f.struct \in Structures(f.geo)
    /\ f.struct \in {"dip", "random"} => f.dd
    /\ f.struct \in {"bulb_sets", "random"} => f.bd
    /\ ContactOk(f.ecm, FALSE)
    /\ Known(f, Rng(f.fac))
    /\ f.alt # <<>> => /\ Len(f.alt) = Len(f.fac)
                       /\ \A i \in 1..Len(f.alt) : Known(f, Rng(f.alt[i]))
    /\ f.ebg # "" => Known(f, {f.ebg})
    /\ HasLag(f) => f.lagf # "" /\ Known(f, {f.lagf})

Accept(f) == SectionsOk(f) /\ RunOk(f) /\ HydOk(f) /\ ModelOk(f) /\ StrataOk(f) /\ FlowOk(f) /\ ElementOk(f) /\ NamesOk(f)

Pos(f, name) == IndexOf(name, f.hyd) - 1
(* what an accepted file resolves to *)
Resolved(f) ==
    [fac  |-> [i \in 1..Len(f.fac) |-> Pos(f, f.fac[i])],
     alt  |-> [i \in 1..Len(f.alt) |-> [j \in 1..Len(f.alt[i]) |-> Pos(f, f.alt[i][j])]],
     bgf  |-> [i \in 1..Len(f.bgf) |-> Pos(f, f.bgf[i])],
     ebg  |-> IF f.ebg = "" THEN None ELSE Pos(f, f.ebg),
     lagf |-> IF HasLag(f) THEN Pos(f, f.lagf) ELSE None,
     d    |-> <<Num[f.dx], IF f.dy = "" THEN Num[f.dx] ELSE Num[f.dy], IF f.dz = "" THEN Num[f.dx] ELSE Num[f.dz]>>,
     cms  |-> [i \in 1..Len(f.cms) |-> Contact(f.cms[i], TRUE)],
     ecm  |-> Contact(f.ecm, FALSE)]
=============================================================================
