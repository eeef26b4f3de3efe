SPECIFICATION Spec
INVARIANT EntropyRight
INVARIANT DirichletRight
INVARIANT LogNormalRight
INVARIANT WishartRight
PROPERTY Laws
CHECK_DEADLOCK FALSE
