SPECIFICATION Spec
CONSTANTS
  CELLS = {0, 1, 2}
  START <- Two
  OPS <- PropOps
  JOINTS = {"j1"}
  GEN = FALSE
  LEN = 0
INVARIANTS Graph Pairs NoOther Events Separate Absent Islands Static Boxes
CHECK_DEADLOCK FALSE
