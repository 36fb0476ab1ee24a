CONSTANTS ProgSize = 5  ProgFree = 1  GramSize = 5
