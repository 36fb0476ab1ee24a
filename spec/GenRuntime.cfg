CONSTANTS PlainLen = 4  PlainOps = 6  CallLen = 3
