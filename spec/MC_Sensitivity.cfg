SPECIFICATION Spec
INVARIANT OptimalInv
PROPERTY ImplicitFunction ExactWhenLinear OnlyRebase
CHECK_DEADLOCK FALSE
