SPECIFICATION Spec
CONSTANTS MaxTokens = 5
INVARIANTS Agree ShownIsRead SameNumbers Halves
CHECK_DEADLOCK FALSE
