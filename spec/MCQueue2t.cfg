CONSTANTS
  NQ = 2
  NL = 2
  Depth = 4
  None = 0
  EmptyErr <- Minus1
INIT Init
NEXT Next
INVARIANT FirstInFirstOut
INVARIANT Export
PROPERTY Separate
CHECK_DEADLOCK FALSE
