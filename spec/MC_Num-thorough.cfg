SPECIFICATION Spec
CONSTANTS
  Stride = 3
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
