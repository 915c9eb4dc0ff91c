SPECIFICATION Spec
CONSTANTS Fns = {"exp"}  Widths = {8, 9}  Variant = 0
INVARIANTS Allowed Functional Reject Gross NoPanic
PROPERTY Terminates
CHECK_DEADLOCK FALSE
