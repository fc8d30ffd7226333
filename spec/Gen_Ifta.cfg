INIT Init
NEXT Next
INVARIANT Out
CHECK_DEADLOCK FALSE
