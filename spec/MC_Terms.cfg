SPECIFICATION Spec
INVARIANT ChainRule ChainRuleRaw
PROPERTY Keeps
CHECK_DEADLOCK FALSE
