CONSTANTS
  P <- PDef
  M <- MDef
  Z <- ZDef
  NMax <- N
  Bug <- BugName
SPECIFICATION CSpec
INVARIANTS NoLeak Heap Result Contract Frame
PROPERTIES CFinishes
CHECK_DEADLOCK FALSE
