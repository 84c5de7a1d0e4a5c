------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The parameters of a solver as a state machine.                           *)
(*                                                                         *)
(* The state p is a function from parameter names to values; an operation   *)
(* is a pair <<op, v>>.  An operation whose value is outside the documented *)
(* range is refused and changes nothing, any other one changes exactly its  *)
(* targets, and a solve changes none of the user's parameters.              *)
(***************************************************************************)
EXTENDS F64, FiniteSets

Fields(kind) ==
  {"inc", "dec", "regmin", "regmax", "alphas", "thdec", "thinc", "thgrad", "tol", "ncb"}
  \cup (IF kind = "FDDP" THEN {"thneg"} ELSE {})
  \cup (IF kind \in {"FDDP", "SQP", "CSQP", "PROXQP"} THEN {"filter", "fsize"} ELSE {})
  \cup (IF kind \in {"SQP", "CSQP", "PROXQP"} THEN {"muD"} ELSE {})
  \cup (IF kind \in {"SQP", "CSQP"} THEN {"extra"} ELSE {})
  \cup (IF kind \in {"CSQP", "PROXQP"} THEN {"muC", "maxqp", "epsa", "epsr"} ELSE {})
  \cup (IF kind = "CSQP" THEN {"lagc", "rhoint", "rhotol", "alpha", "sigma", "eqinit", "rho", "maxtime", "resety", "resetrho",
                               "heur", "rmreg", "qpcb"} ELSE {})
  \cup (IF kind = "PROXQP" THEN {"oldcb"} ELSE {})

\* the parameters that are attributes in Python
PyFields(kind) ==
  CASE kind = "PROXQP" -> Fields("DDP") \cup {"filter", "maxqp", "epsa", "oldcb"}
    [] OTHER -> Fields(kind)

\* operations that are not named after the parameter they change
Targets(op) ==
  CASE op = "regfactor" -> {"inc", "dec"}      \* deprecated: both factors
    [] op = "regmin2" -> {"regmin"}            \* deprecated names
    [] op = "regmax2" -> {"regmax"}
    [] OTHER -> {op}
Ops(kind) == Fields(kind) \cup {"regfactor", "regmin2", "regmax2"}

Range(op) ==
  CASE op \in {"inc", "dec", "regfactor"} -> "above one"
    [] op \in {"regmin", "regmax", "regmin2", "regmax2", "thgrad", "thneg"} -> "not negative"
    [] op \in {"thdec", "thinc"} -> "unit"
    [] op = "alphas" -> "steps"
    [] op = "rhoint" -> "positive integer"
    [] OTHER -> "any"
In(range, v) ==
  CASE range = "above one" -> FLt(1, v)
    [] range = "not negative" -> FLe(0, v)
    [] range = "unit" -> FLt(0, v) /\ FLe(v, 1)
    [] range = "steps" -> /\ Len(v) > 0
                          /\ \A i \in 1..Len(v) : FLt(0, v[i])
                          /\ \A i \in 1..(Len(v) - 1) : FLt(v[i + 1], v[i])
    [] range = "positive integer" -> v > 0
    [] OTHER -> TRUE
Accept(op, v) == In(Range(op), v)
Apply(p, op, v) == IF Accept(op, v) THEN [f \in DOMAIN p |-> IF f \in Targets(op) THEN v ELSE p[f]] ELSE p
\* the current value of the adapted penalty is the only parameter a solve may leave changed
Solved(p, q) == DOMAIN q = DOMAIN p /\ \A f \in DOMAIN p \ {"rho"} : q[f] = p[f]
InRange(p) == \A f \in DOMAIN p : In(Range(f), p[f])
=============================================================================
