SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT RoundTrip
PROPERTY Derivs
CHECK_DEADLOCK FALSE
