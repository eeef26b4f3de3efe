SPECIFICATION Spec
INVARIANT HessianPD
PROPERTY AddUp
CHECK_DEADLOCK FALSE
