SPECIFICATION Spec
CONSTANTS MAXQP = 12
 MAXINT = 6
INVARIANTS FreshFactor Budget StopOk
PROPERTY Ends
CHECK_DEADLOCK FALSE
