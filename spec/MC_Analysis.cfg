INIT Init
NEXT Next
INVARIANT Ansi
INVARIANT Mean
INVARIANT Const
INVARIANT Outside
INVARIANT Mirror
INVARIANT Linear
CHECK_DEADLOCK FALSE
