INIT Init
NEXT Next
INVARIANTS First Valid
CHECK_DEADLOCK FALSE
