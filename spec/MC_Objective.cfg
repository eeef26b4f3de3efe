SPECIFICATION Spec
INVARIANT FeasibleInv NumericInv
PROPERTY Forgetful Coherent
CHECK_DEADLOCK FALSE
