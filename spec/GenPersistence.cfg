CONSTANTS
  LEN = 18
INIT GInit
NEXT GNext
