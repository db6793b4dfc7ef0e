SPECIFICATION MSpec
INVARIANT Holds
INVARIANT TypeOk
INVARIANT NeverStuck
CHECK_DEADLOCK FALSE
