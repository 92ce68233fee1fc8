INIT Init
NEXT Next
INVARIANT Export
INVARIANT Laws
CHECK_DEADLOCK FALSE
