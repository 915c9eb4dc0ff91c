SPECIFICATION Spec
CONSTANTS WMin = 4  WMax = 9  MaxIt = 4  Variant = 0
INVARIANTS NoPanic Bounded Normalised Allowed PanicBad Reject
PROPERTY Terminates
CHECK_DEADLOCK FALSE
