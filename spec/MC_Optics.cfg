INIT Init
NEXT Next
INVARIANTS Parseval Back Axis Sparse PadPower
CHECK_DEADLOCK FALSE
