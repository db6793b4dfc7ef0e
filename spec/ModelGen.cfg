SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
