SPECIFICATION Spec
CONSTANTS Depth = 3  NLong = 3000  LongDepth = 40
INVARIANTS Live Defuse Emit
CHECK_DEADLOCK FALSE
