SPECIFICATION Spec
INVARIANTS Verdict LimitFeasible
CHECK_DEADLOCK FALSE
