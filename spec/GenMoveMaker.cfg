CONSTANTS
  LEN = 14
INIT GInit
NEXT GNext
