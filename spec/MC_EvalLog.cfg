SPECIFICATION Spec
VIEW View
INVARIANT CountInv FirstReported Multiples
PROPERTY Separate
CHECK_DEADLOCK FALSE
