CONSTANTS
  NQ = 1
  NL = 1
  Depth = 6
  None = 0
  EmptyErr <- Minus1
INIT Init
NEXT Next
INVARIANT FirstInFirstOut
INVARIANT Export
PROPERTY Separate
CHECK_DEADLOCK FALSE
