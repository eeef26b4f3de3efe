SPECIFICATION Spec
INVARIANT FeasibleInv
PROPERTY Restores Chain ChainIn
CHECK_DEADLOCK FALSE
