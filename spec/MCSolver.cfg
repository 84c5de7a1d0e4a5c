SPECIFICATION Spec
CONSTANTS
  KINDS = {"SQP", "CSQP", "PROXQP"}
  VALS = {0, 1, 2, 3}
  MAXIT = 2
  NALPHA = 2
  FSIZES = {1, 2}
  LATE = TRUE
  BUGS = {}
  RegFloor <- MCRegFloor
INVARIANTS Budget RegRange FilterSafe Descent Contained Faithful Fresh Certified Shape
PROPERTY Ends
CHECK_DEADLOCK FALSE
