SPECIFICATION Spec
CONSTANTS MaxTokens = 5
INVARIANTS Whole Spacing Around
CHECK_DEADLOCK FALSE
