SPECIFICATION LSpec
CONSTANTS
  Depth = 12
  Vals <- SmallVals
  Ranges <- AllStarts
  NProg = 3000
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
