SPECIFICATION Spec
CONSTANTS
  CELLS = {0, 1}
  START <- Touch
  OPS <- PropOps
  JOINTS = {"j1"}
  GEN = TRUE
  LEN = 3
INVARIANTS Graph Pairs NoOther Events Separate Absent Islands Static Boxes
CHECK_DEADLOCK FALSE
