SPECIFICATION Spec
PROPERTY Laws
CHECK_DEADLOCK FALSE
