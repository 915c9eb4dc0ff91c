SPECIFICATION Spec
CONSTANTS Fns = {"exp"}  Widths = {7, 10, 11}  Variant = 0
INVARIANTS Allowed Functional Reject Gross NoPanic
PROPERTY Terminates
CHECK_DEADLOCK FALSE
