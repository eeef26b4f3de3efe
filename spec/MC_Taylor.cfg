SPECIFICATION Spec
INVARIANT OptimalInv
PROPERTY FirstOrder SecondOrder
CHECK_DEADLOCK FALSE
