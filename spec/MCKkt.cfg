SPECIFICATION Spec
CONSTANTS
  VALS = {0, 1, 2, 3}
  MAXIT = 3
  NALPHA = 2
INVARIANTS Budget Contained Descent Certified Feasible Shape
PROPERTY Ends
CHECK_DEADLOCK FALSE
