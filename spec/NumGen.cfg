SPECIFICATION NSpec
CHECK_DEADLOCK FALSE
