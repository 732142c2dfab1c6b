SPECIFICATION Spec
INVARIANTS Fold NoOwlNoExtras TrimNeedsExtras NothingOnlyConverts Maximal LastWins Emit
CHECK_DEADLOCK FALSE
