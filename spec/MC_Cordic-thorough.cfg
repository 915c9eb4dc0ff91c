SPECIFICATION Spec
CONSTANTS Fns = {"sincos", "asin"}  Widths = {7, 9, 10}  Variant = 0
INVARIANTS Allowed Functional Reject Gross NoPanic
PROPERTY Terminates
CHECK_DEADLOCK FALSE
