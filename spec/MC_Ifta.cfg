INIT Init
NEXT Next
INVARIANTS Open Full Zero Linear Back Coarse
CHECK_DEADLOCK FALSE
