SPECIFICATION Spec
CONSTANTS Width = 5  Variant = 0
INVARIANTS Allowed Unique Faithful Close Quiet
PROPERTY Terminates
CHECK_DEADLOCK FALSE
