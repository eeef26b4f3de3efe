SPECIFICATION Spec
INVARIANT Stuck
PROPERTY Wrong
CHECK_DEADLOCK FALSE
