SPECIFICATION Spec
INVARIANTS Right
PROPERTIES Others
VIEW View
CHECK_DEADLOCK FALSE
