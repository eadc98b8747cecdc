SPECIFICATION Spec
INVARIANT Emit
INVARIANT Sound
INVARIANT NeverMixed
CHECK_DEADLOCK FALSE
