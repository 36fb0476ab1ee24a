SPECIFICATION Spec
CONSTANTS Small = 60  Large = FALSE
INVARIANTS Native Laws Edges
CHECK_DEADLOCK FALSE
