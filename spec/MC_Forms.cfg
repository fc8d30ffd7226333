INIT Init
NEXT Next
INVARIANT Holds
INVARIANT Some
INVARIANT Planes
INVARIANT Steps
CHECK_DEADLOCK FALSE
