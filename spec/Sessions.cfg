SPECIFICATION Spec
CONSTANTS Depth = 2  NLong = 150  LongDepth = 24
INVARIANTS Live Defuse Emit
CHECK_DEADLOCK FALSE
