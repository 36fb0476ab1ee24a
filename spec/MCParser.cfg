SPECIFICATION Spec
CONSTANTS MaxSize = 4  MaxLen = 3  Horizon = 6
INVARIANTS TypesSound TypesExact Unambiguous Correct LosslessInv TreeSpells FaultIsFirst Bounded Ends
CHECK_DEADLOCK FALSE
PROPERTY Terminates
