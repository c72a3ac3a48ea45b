SPECIFICATION Spec
INVARIANTS Known Relation Batches Twice Inert Refused
VIEW View
CHECK_DEADLOCK FALSE
