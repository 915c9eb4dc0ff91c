SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Vals <- ShortVals
  Ranges <- ShortStarts
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
