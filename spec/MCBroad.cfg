SPECIFICATION Spec
CONSTANTS
  SLOTS = {1, 2, 3}
  CELLS = {0, 1, 2}
  SETUP <- None
  GEN = FALSE
  QMAX = 3
  LEN = 0
CONSTRAINT Short
INVARIANTS Covers Queued Complete Apart
CHECK_DEADLOCK FALSE
