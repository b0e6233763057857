----------------------------- MODULE MCRunNames -----------------------------
EXTENDS RunNames, IOUtils, Json, SequencesExt
Stems == {"model", "my.model", "x_parameters", "xautogenerated_backup", "autogenerated_backup", "r_autogenerated_backup.ini",
          "r_autogenerated_backup", "a b", "v1.2.3", "model_backup", "_m_"}
Files == {[dir |-> d, stem |-> s, ext |-> e, backup |-> FALSE] :
             d \in {<<"W">>, <<"W", "sub">>}, s \in Stems, e \in {".ini", ".txt", ""}}
         \cup {[dir |-> d, stem |-> s, ext |-> "", backup |-> TRUE] :
             d \in {<<"W", "model">>, <<"W", "sub", "other">>}, s \in {"model", "my.model", "r", "a_autogenerated_backup.ini"}}
(* a file whose name ends in the suffix is a backup; without extension a dot in the name starts one *)
Usable(f) == /\ f.backup \/ ~(f.stem = "r_autogenerated_backup" /\ f.ext = ".ini")
             /\ (f.backup \/ f.ext # "" \/ f.stem \in {"model", "x_parameters", "xautogenerated_backup", "a b", "model_backup", "_m_"})
Cfgs == {[name |-> n, kind |-> k[1], dir |-> k[2]] : n \in {"", "named", "na.med", "_Named_", "model"},
           k \in {<<"none", <<>>>>, <<"abs", <<"X">>>>, <<"abs", <<"X", "deep", "er">>>>, <<"abs", <<"W", "sub", "..">>>>, <<"abs", <<"X", "model">>>>, <<"rel", <<"named">>>>,
                  <<"rel", <<"Y">>>>, <<"rel", <<"..", "Z">>>>, <<"rel", <<".">>>>, <<"ask-empty", <<>>>>, <<"ask", <<"Y">>>>}}
Cwds == {<<"W">>, <<"C">>}
(* the run directory cannot have the parameter file's own path *)
Cases == {x \in {[file |-> f, cfg |-> c, cwd |-> w] : f \in {g \in Files : Usable(g)}, c \in Cfgs, w \in Cwds} :
             RunDir(x.file, x.cfg, x.cwd) # Append(x.file.dir, FileName(x.file))}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE case
Init == case \in Cases
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
F == case.file
C == case.cfg
(* repeating a run from its backup goes to the same place under the same name, from anywhere *)
BackupRepeats == \A w \in Cwds :
    /\ RunDir(Backup(F, C, case.cwd), C, w) = RunDir(F, C, case.cwd)
    /\ RunName(Backup(F, C, case.cwd), C) = RunName(F, C)
NamedDir == ~F.backup => /\ RunDir(F, C, case.cwd)[Len(RunDir(F, C, case.cwd))] = RunName(F, C)
                         /\ Parent(RunDir(F, C, case.cwd)) = ModelDir(F, C, case.cwd)
NameNeverEmpty == RunName(F, C) # ""
CwdIrrelevant == C.kind \notin {"rel", "ask"} => \A w \in Cwds : RunDir(F, C, w) = RunDir(F, C, case.cwd)
=============================================================================
