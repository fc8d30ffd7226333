INIT Init
NEXT Next
CONSTRAINT Bound
INVARIANTS NoHazard Shows NoMix Memory
CHECK_DEADLOCK FALSE
