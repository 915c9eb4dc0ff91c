SPECIFICATION Spec
CONSTANTS Kinds = {"tocart"}  Widths = {8}  Step = 7  Variant = 0
INVARIANTS Allowed Reject ZeroRule Back
PROPERTY Terminates
CHECK_DEADLOCK FALSE
