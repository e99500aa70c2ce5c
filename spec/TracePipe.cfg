INIT Init
NEXT Next
INVARIANT NoStuck
CHECK_DEADLOCK FALSE
