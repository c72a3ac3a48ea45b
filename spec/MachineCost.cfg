CONSTANTS
  P <- PDef
  M <- MDef
  Z <- ZDef
  NMax <- N
  Bug <- BugName
SPECIFICATION Spec
INVARIANTS Cheap Result Contract Frame
CHECK_DEADLOCK FALSE
