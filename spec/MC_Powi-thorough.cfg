SPECIFICATION Spec
CONSTANTS Width = 8  MaxPow = 8  Variant = 0
INVARIANTS Allowed Inside Inside2 Unique Reject
PROPERTY Terminates
CHECK_DEADLOCK FALSE
