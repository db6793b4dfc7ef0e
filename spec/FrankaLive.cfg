SPECIFICATION LSpec
INVARIANT TypeOk
PROPERTY CallsEnd
CHECK_DEADLOCK FALSE
