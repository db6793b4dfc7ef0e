SPECIFICATION MSpec
CONSTRAINT Show
CHECK_DEADLOCK FALSE
