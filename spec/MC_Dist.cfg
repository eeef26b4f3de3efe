SPECIFICATION Spec
INVARIANT FeasibleInv
INVARIANT Agreement
PROPERTY FromLaw JetLaw
CHECK_DEADLOCK FALSE
