CONSTANTS
  LEN = 24
  N = 8
INIT GInit
NEXT GNext
