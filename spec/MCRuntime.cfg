SPECIFICATION Spec
CONSTANTS MaxLen = 4  MaxOps = 8
INVARIANTS ByRuns PlaceIsFunction InOrder OneAhead BufferIsNext StrContract SkipContract CharsContract ItemsContract
CHECK_DEADLOCK FALSE
