SPECIFICATION SpecGen
INVARIANTS Known Relation
CHECK_DEADLOCK FALSE
