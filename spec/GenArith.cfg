CONSTANTS Chars = 4  Tokens = 4  Terms = 4
