CONSTANTS
  None = "none"
  EmptyErr = "error"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
