SPECIFICATION Spec
CONSTANTS
  KINDS = {"DDP", "FDDP"}
  VALS = {0, 1, 2, 3}
  MAXIT = 2
  FSIZES = {1, 2}
  RegFloor <- MCRegFloor
  IsFull <- MCIsFull
INVARIANTS Budget RegRange FilterSafe Descent FeasSound Contained Certified Shape
PROPERTY Ends
CHECK_DEADLOCK FALSE
