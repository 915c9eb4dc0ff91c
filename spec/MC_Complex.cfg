SPECIFICATION Spec
CONSTANTS Width = 4  Part = 0  Of = 16
INVARIANTS Sound Tight Panics
CHECK_DEADLOCK FALSE
