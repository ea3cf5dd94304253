INIT Init
NEXT Next
INVARIANT Agree Emit
CHECK_DEADLOCK FALSE
