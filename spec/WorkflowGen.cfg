SPECIFICATION Spec
INVARIANT Emit
INVARIANT Fresh
INVARIANT Latest
PROPERTY OnlyOwnKeys
CHECK_DEADLOCK FALSE
