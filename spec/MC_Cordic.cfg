SPECIFICATION Spec
CONSTANTS Fns = {"sincos", "asin"}  Widths = {8}  Variant = 0
INVARIANTS Allowed Functional Reject Gross NoPanic
PROPERTY Terminates
CHECK_DEADLOCK FALSE
