SPECIFICATION Spec
INVARIANT BackupRepeats
INVARIANT NamedDir
INVARIANT NameNeverEmpty
INVARIANT CwdIrrelevant
