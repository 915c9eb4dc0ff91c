SPECIFICATION Spec
CONSTANTS Kinds = {"topolar"}  Widths = {8}  Step = 19  Variant = 0
INVARIANTS Allowed Reject ZeroRule Back
PROPERTY Terminates
CHECK_DEADLOCK FALSE
