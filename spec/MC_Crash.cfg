CONSTANT MaxTries = 3
INIT Init
NEXT Next
INVARIANTS NeverPart Survives Complete BackedUp Last2 NoneLost
CHECK_DEADLOCK FALSE
