SPECIFICATION Spec
CONSTANTS
  SLOTS = {1, 2, 3}
  CELLS = {0, 1, 2}
  SETUP <- Some
  GEN = TRUE
  QMAX = 20
  LEN = 14
INVARIANTS Covers Queued Complete Apart
CHECK_DEADLOCK FALSE
