SPECIFICATION Spec
CONSTANT N = 9
INVARIANT Conserved LimitKept Result
PROPERTY Terminates
CHECK_DEADLOCK FALSE
