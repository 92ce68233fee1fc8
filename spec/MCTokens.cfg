INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Accepted Alphabet DeepLaw
