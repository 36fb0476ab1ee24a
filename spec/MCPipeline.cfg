SPECIFICATION Spec
CONSTANTS
  SeqLen = 4
  LetLen = 4
  ProgSize = 4
  DefSize = 4
INVARIANTS
  ReadIsFaithful
  ReadIsComplete
  ResolveIsLexical
  StaysClosed
  ExpansionIsComplete
  DiagnosticsPoint
CHECK_DEADLOCK FALSE
