SPECIFICATION LSpec
CONSTANTS
  Depth = 12
  Vals <- SmallVals
  Ranges <- AllStarts
  NProg = 300
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
