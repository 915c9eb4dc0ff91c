SPECIFICATION Spec
CONSTANTS Width = 5  Variant = 0
INVARIANTS Allowed Prints Unique Shows ShowsDec
PROPERTY Terminates
CHECK_DEADLOCK FALSE
