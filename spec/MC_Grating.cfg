INIT Init
NEXT Next
INVARIANTS UnitV Dark Conj Half Mono Sharp Neg
CHECK_DEADLOCK FALSE
