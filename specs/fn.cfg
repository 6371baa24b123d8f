SPECIFICATION FSpec
CONSTANT FOk <- Ok
INVARIANT Report
CHECK_DEADLOCK FALSE
