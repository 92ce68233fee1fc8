CONSTANT MaxRerolls = 10000
INIT Init
NEXT Next
INVARIANT Export
INVARIANT Independent
PROPERTY OneAtATime
PROPERTY Kept
CHECK_DEADLOCK FALSE
