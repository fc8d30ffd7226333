SPECIFICATION Spec
INVARIANT Legal
INVARIANT Free
INVARIANT ArithOnce
PROPERTY Frozen
CHECK_DEADLOCK FALSE
