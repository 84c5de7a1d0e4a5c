---------------------------- MODULE ParamScripts ----------------------------
(* Random behaviours of Params.tla, printed as scripts for the real solvers. *)
EXTENDS Params, TLC, Json
VARIABLES kind, ops, n
vars == <<kind, ops, n>>
R(S) == RandomElement(S)
B(a) == FBits(a)
Q(a, b) == B(FDiv(a, b))
Sel(q) == q[R(1..Len(q))]
\* around every boundary; the largest and smallest doubles near one and zero
Eps == FPow10(0 - 15)
Reals == <<B(0), Q(0 - 1, 1), B(FPow10(0 - 300)), B(FNeg(FPow10(0 - 300))), B(FPow10(0 - 9)), Q(1, 100), Q(1, 4), Q(1, 2), B(1), B(FAdd(1, Eps)),
           B(FSub(1, Eps)), B(2), B(10), B(FPow10(9)), B(FInf), B(FNeg(FInf))>>
Lists == <<<<>>, <<B(1)>>, <<B(1), Q(1, 2)>>, <<B(1), Q(1, 2), Q(1, 4), Q(1, 8)>>, <<Q(1, 2), B(1)>>, <<B(1), B(1)>>, <<B(0)>>, <<Q(0 - 1, 2)>>,
           <<B(1), B(0)>>, <<B(1), Q(1, 2), B(0)>>, <<B(1), Q(1, 2), Q(0 - 1, 2)>>, <<Q(1, 2), Q(1, 4)>>, <<B(1), Q(1, 2), Q(1, 2)>>,
           <<B(1), Q(1, 4), Q(1, 2), Q(1, 8)>>, <<B(1), B(FPow10(0 - 300))>>, <<B(1), B(FSub(1, Eps))>>>>
Ints == {"fsize", "maxqp", "rhoint", "rhotol", "ncb"}
Bools == {"filter", "extra", "eqinit", "resety", "resetrho", "heur", "rmreg", "qpcb", "oldcb"}
\* printing on every iteration is for humans
Value(op) ==
  CASE op = "alphas" -> Sel(Lists)
    [] op = "fsize" -> R(0..5) [] op = "ncb" -> R(0..3) [] op = "maxqp" -> R(0..60) [] op = "rhoint" -> R({0, 1, 2, 5, 25}) [] op = "rhotol" -> R(1..9)
    [] op \in Bools -> R({TRUE, FALSE})
    [] op = "rho" -> Sel(<<Q(1, 100), Q(1, 10), B(1), B(10)>>)
    [] op = "alpha" -> Sel(<<B(1), Q(8, 5), Q(3, 2)>>)
    [] op = "sigma" -> Sel(<<B(FPow10(0 - 6)), B(FPow10(0 - 3))>>)
    [] OTHER -> Sel(Reals)
Init == kind = "" /\ ops = <<>> /\ n = 0
Pick == kind = "" /\ \E k \in {R({"DDP", "FDDP", "SQP", "CSQP", "PROXQP"})} : kind' = k /\ n' = R(10..50) /\ UNCHANGED ops
Step ==
  /\ kind # "" /\ Len(ops) < n
  /\ \E op \in {IF R(1..10) = 1 THEN "solve" ELSE IF R(1..8) = 1 THEN "alphas" ELSE R(Ops(kind))} :
     \E v \in {IF op = "solve" THEN R(0..3) ELSE Value(op)} : ops' = Append(ops, <<op, v>>)
  /\ UNCHANGED <<kind, n>>
Fin ==
  /\ kind # "" /\ Len(ops) = n /\ n > 0
  /\ PrintT("@@G " \o ToJson([kind |-> kind, ops |-> ops]))
  /\ n' = 0 /\ UNCHANGED <<kind, ops>>
Next == Pick \/ Step \/ Fin
Spec == Init /\ [][Next]_vars
=============================================================================
