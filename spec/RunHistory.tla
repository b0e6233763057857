----------------------------- MODULE RunHistory -----------------------------
(* The file system as runs see it.  An entry is [d, p, t]: directory, path in  *)
(* it, and a tag that changes whenever the file is written (kind@step).  The   *)
(* entry ./ of a run directory says that the directory exists; an empty        *)
(* directory in it is the entry name/.                                         *)
(* Run directories are "W/a" and "X/a"; "W" holds the parameter files, "O"     *)
(* belongs to somebody else.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* parameter files ("bad" is refused when read; "fail" and "late" fail while the model is generated and  *)
(* while the results are written, "full" and "fulz" because the file system takes no more data; what is  *)
(* left in their own run directory "W/f" is not specified): name,                                        *)
(* run directory, run name, overwrite setting, number of realizations, outputs, valid *)
Inis == [a    |-> [dir |-> "W/a", name |-> "a", ow |-> FALSE, num |-> 1, outs |-> {"npz"}, valid |-> TRUE],
         b    |-> [dir |-> "W/a", name |-> "a", ow |-> TRUE, num |-> 2, outs |-> {"npz", "pickle"}, valid |-> TRUE],
         c    |-> [dir |-> "X/a", name |-> "a", ow |-> FALSE, num |-> 1, outs |-> {"pickle"}, valid |-> TRUE],
         bad  |-> [dir |-> "W/a", name |-> "a", ow |-> TRUE, num |-> 1, outs |-> {"npz"}, valid |-> FALSE],
         fail |-> [dir |-> "W/f", name |-> "f", ow |-> TRUE, num |-> 1, outs |-> {"npz"}, valid |-> FALSE],
         late |-> [dir |-> "W/f", name |-> "f", ow |-> TRUE, num |-> 1, outs |-> {"npz"}, valid |-> FALSE],
         full |-> [dir |-> "W/f", name |-> "f", ow |-> TRUE, num |-> 2, outs |-> {"npz", "pickle"}, valid |-> FALSE],
         fulz |-> [dir |-> "W/f", name |-> "f", ow |-> TRUE, num |-> 1, outs |-> {"npz"}, valid |-> FALSE]]
RunDirs == {"W/a", "X/a"}
BackupOf(name) == name \o "_autogenerated_backup.ini"
E(d, p, t) == [d |-> d, p |-> p, t |-> t]
Digit == <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>
RealDir(i) == "real_00" \o Digit[i] \o "/"
At(k) == "@" \o ToString(k)
Outputs(ini, i, k) ==
    {E(Inis[i].dir, (IF Inis[i].num = 1 THEN "" ELSE RealDir(r)) \o Inis[i].name \o "." \o f, "out" \o At(k)) :
        r \in 1..Inis[i].num, f \in Inis[i].outs}
Inside(fs, d) == {e \in fs : e.d = d}
Overwrite(i, flag) == flag = "yes" \/ (flag = "none" /\ Inis[i].ow)

Exists(d) == E(d, "./", "dir")
(* a run of configuration i into its directory *)
Res(out, fs) == [out |-> out, fs |-> fs]
Run(fs, i, flag, k) ==
    IF ~Inis[i].valid THEN Res("fails", fs)
    ELSE IF Inside(fs, Inis[i].dir) # {} /\ ~Overwrite(i, flag) THEN Res("fails", fs)
    ELSE Res("ok", (fs \ Inside(fs, Inis[i].dir))
                   \cup {Exists(Inis[i].dir)}
                   \cup {E(Inis[i].dir, BackupOf(Inis[i].name), "cfg-" \o i \o At(k))}
                   \cup Outputs(Inis, i, k))
(* which configuration's backup lies in directory d ("-" for none) *)
BackupIni(cfg, d) == cfg[d]

Foreign(fs, d, kind, k) ==
    fs \cup {Exists(d)}
       \cup (CASE kind = "file"     -> {E(d, "notes.txt", "foreign" \o At(k))}
               [] kind = "ini"      -> {E(d, "notes.txt.ini", "foreign" \o At(k))}
               [] kind = "alike"    -> {E(d, "a.notes.txt.npz", "foreign" \o At(k)), E(d, "real_007/a.notes.txt", "foreign" \o At(k))}
               [] kind = "bare"     -> {}
               [] kind = "void"     -> {E(d, "void/", "dir")}
               [] kind = "hidden"   -> {E(d, ".notes.txt", "foreign" \o At(k)), E(d, ".more/.notes.txt", "foreign" \o At(k))}
               [] kind = "subdir"   -> {E(d, "more/deep/notes.txt", "foreign" \o At(k))}
               [] kind = "linkdir"  -> {E(d, "to_O", "link")}
               [] kind = "dangling" -> {E(d, "to_nothing", "link")})
Replace(fs, new) == {e \in fs : ~\E n \in new : n.d = e.d /\ n.p = e.p} \cup new

(* one operation on state [fs, cfg]; cfg: whose backup each run directory holds *)
Step(s, op, k) ==
    LET i == IF op.op = "backup" THEN s.cfg[op.d] ELSE op.i
    IN  CASE op.op \in {"run", "backup"} ->
               IF i = "-" THEN [out |-> "fails", fs |-> s.fs, cfg |-> s.cfg]
               ELSE LET r == Run(s.fs, i, op.flag, k)
                    IN  [out |-> r.out, fs |-> r.fs,
                         cfg |-> IF r.out = "ok" THEN [s.cfg EXCEPT ![Inis[i].dir] = i] ELSE s.cfg]
          [] op.op = "missing" -> [out |-> "fails", fs |-> s.fs, cfg |-> s.cfg]
          [] op.op = "foreign" ->
               LET new == Foreign({}, op.d, op.kind, k)
               IN  [out |-> "ok", fs |-> Replace(s.fs, new), cfg |-> s.cfg]

Start == [fs |-> {E("W", "a.ini", "ini"), E("W", "b.ini", "ini"), E("W", "c.ini", "ini"), E("W", "bad.ini", "ini"), E("W", "fail.ini", "ini"), E("W", "late.ini", "ini"),
                  E("W", "full.ini", "ini"), E("W", "fulz.ini", "ini"),
                  E("W", "other.txt", "foreign@0"), E("W", "b/keep.txt", "foreign@0"), E("O", "precious.txt", "foreign@0"), E("O", "sub/precious.txt", "foreign@0")},
          cfg |-> [d \in RunDirs |-> "-"]]
Flags == {"none", "yes", "no"}
Ops == {[op |-> "run", i |-> i, flag |-> f, d |-> "-", kind |-> "-"] : i \in {"a", "b", "c", "bad"}, f \in Flags}
       \cup {[op |-> "backup", i |-> "-", flag |-> f, d |-> d, kind |-> "-"] : f \in Flags, d \in RunDirs}
       \cup {[op |-> "foreign", i |-> "-", flag |-> "-", d |-> d, kind |-> kd] : d \in RunDirs, kd \in {"file", "subdir", "linkdir", "dangling", "bare", "void", "hidden", "ini", "alike"}}
(* the command line: no flag or --overwrite *)
CliOps == {o \in Ops : o.flag # "no"} \cup {[op |-> "run", i |-> i, flag |-> f, d |-> "-", kind |-> "-"] : i \in {"fail", "late", "full", "fulz"}, f \in {"none", "yes"}}
          \cup {[op |-> "missing", i |-> "-", flag |-> f, d |-> "-", kind |-> "-"] : f \in {"none", "yes"}}
=============================================================================
