SPECIFICATION Spec
CONSTANTS
  MaxTokens = 2
INVARIANTS
  ReadsAsWritten
  CutReadsAsLess
CHECK_DEADLOCK FALSE
