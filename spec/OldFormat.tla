------------------------------ MODULE OldFormat ------------------------------
(* Parameter files in the old format and their translation into the new one.       *)
(* A file is a function from sections to functions from options to values; values  *)
(* are texts, numbers (facies), truth values or sequences of them.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Has(s, k) == k \in DOMAIN s
Without(s, ks) == [k \in DOMAIN s \ ks |-> s[k]]
Rename(s, old, new) == IF Has(s, old) THEN Without(s, {old}) @@ (new :> s[old]) ELSE s
Get(s, k, d) == IF Has(s, k) THEN s[k] ELSE d
Old(file) == Has(file, "run") /\ (Has(file.run, "dataoutputs") \/ Has(file.run, "l_dataoutputs"))
(* ---- second names of options ---- *)
Alias == [dataoutputs |-> "l_dataoutputs", modeloutputs |-> "l_modeloutputs", anisotropy |-> "flag_anisotropy", het |-> "flag_het",
          periodic |-> "flag_periodic", display |-> "flag_display", ssm |-> "l_ssm", ssm_top |-> "r_ssm_top",
          ssm_contact_model |-> "ll_ssm_contact_model", ae |-> "l_ae", ssm_ae |-> "ll_ssm_ae", ae_prob |-> "ll_ae_prob",
          ae_z_mean |-> "ll_ae_z_mean", avul_prob |-> "ll_avul_prob", avul |-> "ll_avul", contact_model |-> "r_contact_model",
          facies |-> "l_facies", altfacies |-> "ll_altfacies", geo_ztrend |-> "r_geo_ztrend", k_ztrend |-> "r_k_ztrend",
          k_xtrend |-> "r_k_xtrend", n_xtrend |-> "r_n_xtrend", n_ztrend |-> "r_n_ztrend", migrate |-> "r_migrate", lag |-> "r_lag",
          dip |-> "r_dip", azimuth |-> "r_azimuth", paleoflow |-> "r_paleoflow", te_xyz |-> "ll_te_xyz", gen |-> "flag_gen",
          hydro |-> "l_hydro", k_h |-> "r_k_h", sig_y |-> "r_sig_y", k_ratio |-> "r_k_ratio", n |-> "r_n", sig_n |-> "r_sig_n",
          ycorlengths |-> "ll_ycorlengths", ncorlengths |-> "ll_ncorlengths"]
Other(k) == IF k \in DOMAIN Alias THEN Alias[k] ELSE k
Aliased(s) == LET D == DOMAIN s IN [n \in {Other(k) : k \in D} |-> s[CHOOSE k \in D : Other(k) = n]]
Plain(s) == LET Back(n) == IF n = "l_seq" THEN "ssm" ELSE IF \E k \in DOMAIN Alias : Alias[k] = n THEN CHOOSE k \in DOMAIN Alias : Alias[k] = n ELSE n
            IN  [k \in {Back(n) : n \in DOMAIN s} |-> s[CHOOSE n \in DOMAIN s : Back(n) = k]]
(* ---- translation ---- *)
Fixed == {"run", "model", "strata", "hydraulics", "flowtrans"}
Elements(file) == DOMAIN file \ Fixed
Name(file, i) == file.hydraulics.hydro[i + 1]
Names(file, s) == [i \in 1..Len(s) |-> Name(file, s[i])]
(* features that do not exist any more *)
Refused(file) == \/ Get(file.model, "hetlev", "") = "ae" \/ Get(file.model, "display", FALSE)
                 \/ Has(file.strata, "ae_table") \/ Get(file.strata, "save_aelu", FALSE)
                 \/ Get(file.strata, "ssm_contact", "flat") = "user" /\ Len(file.strata.ssm) > 1
                 \/ \E e \in Elements(file) : file[e].geometry = "ext_par" /\ Has(file[e], "migrate")
Run(file) == Rename(Without(file.run, {"dataoutputs", "modeloutputs", "anisotropy", "het"}), "flag_ow", "overwrite_old_output")
             @@ ("outputs" :> (Get(file.run, "modeloutputs", <<>>) \o Get(file.run, "dataoutputs", <<>>)))
Model(file) == Without(file.model, {"hetlev", "display"})
               @@ ("anisotropy" :> Get(file.run, "anisotropy", TRUE)) @@ ("heterogeneity" :> Get(file.run, "het", TRUE))
               @@ ("hydraulics" :> Get(file.hydraulics, "gen", TRUE)) @@ ("heterogeneity_level" :> file.model.hetlev)
Contact(mode, z, m) == IF mode = "random" THEN <<mode>> \o z \o m ELSE <<mode>> \o z
Strata(file) == LET s == file.strata n == Len(s.ssm) IN
    [ae |-> s.ae, ae_prob |-> s.ae_prob, ae_z_mean |-> s.ae_z_mean, avul |-> s.avul, avul_prob |-> s.avul_prob,
     strata |-> s.ssm, ae_in_strata |-> s.ssm_ae,
     strata_contact_models |-> [i \in 1..(n - 1) |-> LET m == Get(s, "ssm_contact", "flat")
                                 IN Contact(m, <<s.ssm_top[i]>>, IF m = "random" THEN s.ssm_contact_model[i] ELSE <<>>)],
     bg_facies |-> [i \in 1..n |-> Name(file, s.bg[1])], bg_azim |-> [i \in 1..n |-> s.bg[2]], bg_dip |-> [i \in 1..n |-> s.bg[3]]]
Geometry(g) == CASE g = "trunc_ellip" -> "trough" [] g = "ext_par" -> "channel" [] OTHER -> g
Structure(g) == CASE g = "bulb_l" -> "bulb_sets" [] OTHER -> g
Element(file, e) == LET s == file[e]
        t == Rename(Rename(Rename(Rename(Without(s, {"bg", "lag", "contact", "contact_model", "facies", "altfacies"}),
                 "geo_ztrend", "size_ztrend"), "dipset_d", "dipset_dist"), "bulbset_d", "bulbset_dist"), "el_z", "trough_density")
    IN  [t EXCEPT !.geometry = Geometry(@), !.structure = Structure(@)]
        @@ ("contact_model" :> Contact(s.contact, <<>>, Get(s, "contact_model", <<>>)))
        @@ ("facies" :> Names(file, s.facies))
        @@ (IF Has(s, "altfacies") THEN "altfacies" :> [i \in 1..Len(s.altfacies) |-> Names(file, s.altfacies[i])] ELSE <<>>)
        @@ (IF Has(s, "bg") THEN [bg_facies |-> Name(file, s.bg[1]), bg_azim |-> s.bg[2], bg_dip |-> s.bg[3]] ELSE <<>>)
        @@ (IF Has(s, "lag") THEN [lag_height |-> s.lag[1], lag_facies |-> Name(file, s.lag[2])] ELSE <<>>)
Hydraulics(file) == Rename(Without(file.hydraulics, {"gen"}), "hydro", "hydrofacies")
Translate(f) == LET file == [s \in DOMAIN f |-> Plain(f[s])] IN
    [s \in DOMAIN file |-> CASE s = "run" -> Run(file) [] s = "model" -> Model(file) [] s = "strata" -> Strata(file)
                             [] s = "hydraulics" -> Hydraulics(file) [] s = "flowtrans" -> file.flowtrans
                             [] OTHER -> Element(file, s)]
=============================================================================
