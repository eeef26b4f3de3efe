SPECIFICATION Spec
PROPERTY HessianRight Right UnitThere
CHECK_DEADLOCK FALSE
