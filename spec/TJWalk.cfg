SPECIFICATION Spec
INVARIANT Judge
CHECK_DEADLOCK FALSE
