SPECIFICATION Spec
CONSTANT HistLen = 3
CONSTANT Cli = TRUE
INVARIANT Functional
INVARIANT OutsideUntouched
INVARIANT NoOverwriteNoChange
INVARIANT OverwriteLeavesNothing
INVARIANT BackupPresent
INVARIANT DirectoryExists
