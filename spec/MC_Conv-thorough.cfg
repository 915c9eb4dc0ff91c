SPECIFICATION Spec
CONSTANTS Width = 6  Variant = 0
INVARIANTS Allowed Unique Faithful Close Quiet
PROPERTY Terminates
CHECK_DEADLOCK FALSE
