INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Report
CHECK_DEADLOCK FALSE
