SPECIFICATION Spec
INVARIANT FeasibleInv
PROPERTY Forgetful Mirror
CHECK_DEADLOCK FALSE
