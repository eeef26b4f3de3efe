SPECIFICATION MCSpec
INVARIANT StopsRight Bounded KeptInOrder
PROPERTY Terminates
CHECK_DEADLOCK FALSE
