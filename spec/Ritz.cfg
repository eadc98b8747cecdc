SPECIFICATION Spec
INVARIANT Judge BoundsSound
CHECK_DEADLOCK FALSE
