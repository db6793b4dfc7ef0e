SPECIFICATION NSpec
CONSTRAINT Show
CHECK_DEADLOCK FALSE
