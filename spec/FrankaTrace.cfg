SPECIFICATION TSpec
CONSTRAINT Show
CHECK_DEADLOCK FALSE
