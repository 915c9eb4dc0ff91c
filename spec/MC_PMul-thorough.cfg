SPECIFICATION Spec
CONSTANTS Kinds = {"pmul","pmix","cmix"}  Widths = {8}  Step = 20  Variant = 0
INVARIANTS Allowed Reject ZeroRule Back
PROPERTY Terminates
CHECK_DEADLOCK FALSE
