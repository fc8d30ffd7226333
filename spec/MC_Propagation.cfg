INIT Init
NEXT Next
INVARIANTS Parseval Passive Conserve Agree Refine
CHECK_DEADLOCK FALSE
