------------------------------ MODULE RunNames ------------------------------
(* Where a run goes.  Paths are sequences of components below a common root.   *)
(* A parameter file is [dir, stem, ext, backup]; a backup file carries the     *)
(* suffix of automatically created backups after its stem.                     *)
(* A configuration is [name, kind, dir]: kind "none" no model directory,       *)
(* "abs" an absolute one, "rel" one relative to the working directory,         *)
(* "ask-empty"/"ask" entered at the prompt (nothing / a relative path).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Suffix == "_autogenerated_backup.ini"
FileName(f) == f.stem \o (IF f.backup THEN Suffix ELSE f.ext)
Parent(p) == SubSeq(p, 1, Len(p) - 1)
(* a path with "." and ".." components taken out *)
RECURSIVE Clean(_, _)
Clean(p, acc) == IF p = <<>> THEN acc
                 ELSE IF Head(p) = "." THEN Clean(Tail(p), acc)
                 ELSE IF Head(p) = ".." THEN Clean(Tail(p), IF acc = <<>> THEN acc ELSE Parent(acc))
                 ELSE Clean(Tail(p), Append(acc, Head(p)))
RunName(f, c) == IF c.name # "" THEN c.name ELSE f.stem
ModelDir(f, c, cwd) == IF f.backup THEN Parent(f.dir)
                       ELSE IF c.kind \in {"none", "ask-empty"} THEN f.dir
                       ELSE IF c.kind = "abs" THEN Clean(c.dir, <<>>)
                       ELSE Clean(c.dir, cwd)
RunDir(f, c, cwd) == IF f.backup THEN f.dir ELSE Append(ModelDir(f, c, cwd), RunName(f, c))
BackupName(f, c) == RunName(f, c) \o Suffix
Backup(f, c, cwd) == [dir |-> RunDir(f, c, cwd), stem |-> RunName(f, c), ext |-> "", backup |-> TRUE]
=============================================================================
