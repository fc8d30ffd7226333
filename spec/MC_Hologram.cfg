INIT Init
NEXT Next
INVARIANTS Agree Idle Sharp Unit
PROPERTY Descent
CHECK_DEADLOCK FALSE
