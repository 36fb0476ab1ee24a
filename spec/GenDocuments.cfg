CONSTANTS FracLen = 2  StrLen = 2  Toks = 9  AnyToks = 4
