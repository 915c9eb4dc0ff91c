SPECIFICATION Spec
CONSTANTS Width = 8  FMin = 4  FMax = 5  Part = 1  Of = 31  Variant = 0
INVARIANTS Allowed Reject
CHECK_DEADLOCK FALSE
