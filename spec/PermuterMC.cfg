SPECIFICATION Spec
CONSTANT W = 4
INVARIANT AlwaysLegal
PROPERTY Untouched
CHECK_DEADLOCK FALSE
