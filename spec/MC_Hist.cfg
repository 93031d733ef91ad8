INIT Init
NEXT Next
INVARIANT Report
INVARIANT Law
CHECK_DEADLOCK FALSE
