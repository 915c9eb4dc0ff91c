SPECIFICATION Spec
CONSTANTS Width = 8  FMin = 3  FMax = 5  Part = 1  Of = 2  Variant = 0
INVARIANTS Allowed Reject
CHECK_DEADLOCK FALSE
