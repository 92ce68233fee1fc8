INIT Init
NEXT Next
INVARIANT Fair
INVARIANT Same
INVARIANT Published
CHECK_DEADLOCK FALSE
