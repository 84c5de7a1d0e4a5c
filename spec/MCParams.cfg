SPECIFICATION Spec
CONSTANT KIND = "CSQP"
VIEW View
INVARIANTS Ranges
PROPERTY Sticky
CHECK_DEADLOCK FALSE
