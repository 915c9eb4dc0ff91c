SPECIFICATION Spec
CONSTANTS Kinds = {"cexp"}  Widths = {8}  Step = 31  Variant = 0
INVARIANTS Allowed Reject ZeroRule Back
PROPERTY Terminates
CHECK_DEADLOCK FALSE
