SPECIFICATION Spec
CONSTANTS MaxCode = 6  Buffer = 2  MaxText = 4
INVARIANTS AllOfIt SaysWhy Permitted NothingOfABadProgram AllRead
PROPERTY Terminates
CHECK_DEADLOCK FALSE
