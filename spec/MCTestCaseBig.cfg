SPECIFICATION Spec
CONSTANT HistLen = 4
INVARIANT NothingElse
INVARIANT NothingLost
INVARIANT NothingLeft
INVARIANT CompleteFirst
INVARIANT Truthful
INVARIANT OwnKept
INVARIANT Separate
