SPECIFICATION Spec
CONSTANTS
  Stride = 11
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
