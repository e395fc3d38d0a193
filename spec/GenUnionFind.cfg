CONSTANTS
  LEN = 12
INIT GInit
NEXT GNext
