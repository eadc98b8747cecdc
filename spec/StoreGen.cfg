SPECIFICATION Spec
INVARIANT Emit
INVARIANT NoGuessOnDisk
PROPERTY LoadSaveIsIdentity
CHECK_DEADLOCK FALSE
