SPECIFICATION Spec
CONSTANTS Width = 6  MaxPow = 5  Variant = 0
INVARIANTS Allowed Inside Inside2 Unique Reject
PROPERTY Terminates
CHECK_DEADLOCK FALSE
