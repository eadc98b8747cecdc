SPECIFICATION Spec
INVARIANT Judge
INVARIANT SpecSound
CHECK_DEADLOCK FALSE
