SPECIFICATION Spec
INVARIANT Emit
INVARIANT Typed
PROPERTY Kept
CHECK_DEADLOCK FALSE
