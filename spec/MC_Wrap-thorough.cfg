SPECIFICATION Spec
CONSTANTS WMin = 3  WMax = 8  Variant = 0
INVARIANTS NoPanic FewSteps Allowed Unique PanicBad Idempotent
PROPERTY Terminates
CHECK_DEADLOCK FALSE
