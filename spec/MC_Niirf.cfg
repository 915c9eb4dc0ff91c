SPECIFICATION Spec
CONSTANTS WMin = 4  WMax = 7  MaxIt = 3  Variant = 0
INVARIANTS NoPanic Bounded Normalised Allowed PanicBad Reject
PROPERTY Terminates
CHECK_DEADLOCK FALSE
