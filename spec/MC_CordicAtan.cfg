SPECIFICATION Spec
CONSTANTS Fns = {"atan2"}  Widths = {8}  Variant = 0
INVARIANTS Allowed Functional Reject Gross NoPanic
PROPERTY Terminates
CHECK_DEADLOCK FALSE
