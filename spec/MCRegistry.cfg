INIT Init
NEXT Next
INVARIANT Export
INVARIANT IdsOK
INVARIANT UnknownKeeps
INVARIANT OneOk
PROPERTY Apart
CHECK_DEADLOCK FALSE
