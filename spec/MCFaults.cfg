CONSTANTS
  MaxRerolls = 3
  MaxFaces = 6
  Submissions <- NoTexts
  FaultKinds = {"error", "faces", "zero", "above"}
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
INVARIANTS Accounting RefusedDrawsNothing ImproperEnds FacesAtLeastOne SumRollTotal VerdictTrue BasicLists ExplodingGroups CompoundingChains FacesOfRolls ChoosesListed EchoReadsBack MinimalEcho
INVARIANT Export
