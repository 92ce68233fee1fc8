CONSTANT MaxRerolls = 10000
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
