SPECIFICATION Spec
CONSTANTS
  Horizon = 4
  Strings = 4
POSTCONDITION AllRead
CHECK_DEADLOCK FALSE
