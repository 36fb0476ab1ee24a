CONSTANTS SeqLen = 4  LetLen = 4  ProgSize = 4  DefSize = 4
