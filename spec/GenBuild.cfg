SPECIFICATION SpecGen
INVARIANTS Right
CHECK_DEADLOCK FALSE
