SPECIFICATION Spec
INVARIANT Wellformed
PROPERTY Stable
CHECK_DEADLOCK FALSE
