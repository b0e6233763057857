SPECIFICATION Spec
CONSTANT HistLen = 3
INVARIANT NothingElse
INVARIANT NothingLost
INVARIANT NothingLeft
INVARIANT CompleteFirst
INVARIANT Truthful
INVARIANT OwnKept
INVARIANT Separate
