INIT Init
NEXT Next
CONSTRAINT Bound
INVARIANTS NoHazard Shows NoMix Guarded Finite
CHECK_DEADLOCK FALSE
