SPECIFICATION Spec
CONSTANT HistLen = 5
CONSTANT Cli = FALSE
INVARIANT Functional
INVARIANT OutsideUntouched
INVARIANT NoOverwriteNoChange
INVARIANT OverwriteLeavesNothing
INVARIANT BackupPresent
INVARIANT DirectoryExists
