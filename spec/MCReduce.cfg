SPECIFICATION Spec
CONSTANTS MaxSize = 5  MaxFree = 1  MaxTerm = 14  Fuel = 12
INVARIANTS Confluent LeavesNothing NoNewFree OneByOneIsSimultaneous ShiftLaws
CONSTRAINT Small
CHECK_DEADLOCK FALSE
