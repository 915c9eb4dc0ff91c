SPECIFICATION Spec
CONSTANTS Variant = 0
INVARIANTS Allowed Unique Anti Trans Congr Total Refl
PROPERTY Terminates
CHECK_DEADLOCK FALSE
