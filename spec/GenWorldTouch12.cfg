SPECIFICATION Spec
CONSTANTS
  CELLS = {0, 1, 2}
  START <- Touch
  OPS <- PropOps
  JOINTS = {"j1"}
  GEN = TRUE
  LEN = 12
INVARIANTS Graph Pairs NoOther Events Separate Absent Islands Static Boxes
CHECK_DEADLOCK FALSE
