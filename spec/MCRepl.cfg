CONSTANT MaxRerolls = 10000
INIT Init
NEXT Next
INVARIANT Export
INVARIANT NoScriptForRandom
INVARIANT Same
PROPERTY Discipline
CHECK_DEADLOCK FALSE
