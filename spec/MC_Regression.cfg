SPECIFICATION Spec
INVARIANT Inverse2
INVARIANT Proper
PROPERTY Laws Batches
CHECK_DEADLOCK FALSE
