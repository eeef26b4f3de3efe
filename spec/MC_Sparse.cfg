SPECIFICATION Spec
PROPERTY Placed Kept Transposes
CHECK_DEADLOCK FALSE
