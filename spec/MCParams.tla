------------------------------ MODULE MCParams ------------------------------
(* Exhaustive exploration of Params.tla over all kinds of operations and     *)
(* boundary values (with IEEE numbers: F64 overridden).                      *)
EXTENDS Params, TLC
CONSTANT KIND
VARIABLES p, last
vars == <<p, last>>
B(a) == FBits(a)
Half == B(FDiv(1, 2))
Vals == {B(0 - 1), B(0), Half, B(1), B(2)}
Lists == {<<>>, <<B(1)>>, <<B(1), Half>>, <<Half, B(1)>>, <<B(1), B(1)>>, <<B(0)>>, <<B(1), B(0)>>, <<B(1), B(0 - 1)>>, <<B(2), B(1), Half>>}
\* one parameter of every range and of every kind of solver
MCFields == {"inc", "dec", "regmin", "regmax", "alphas", "thdec", "tol", "rho"} \cap Fields(KIND)
MCOps == (MCFields \cup {"regfactor", "regmin2", "rhoint", "thneg"}) \cap Ops(KIND)
Values(op) == CASE op = "alphas" -> Lists [] op = "rhoint" -> {0, 1, 25} [] OTHER -> Vals
FieldSet == MCFields \cup (Fields(KIND) \cap {"rhoint", "thneg"})
Default(f) == CASE f = "alphas" -> <<B(1), Half>> [] f = "rhoint" -> 25 [] f \in {"inc", "dec", "thneg"} -> B(2) [] f = "thdec" -> Half [] OTHER -> B(0)
Init == p = [f \in FieldSet |-> Default(f)] /\ last = <<"new", B(0), p>>
Do(op, v) == p' = Apply(p, op, v) /\ last' = <<op, v>>
Solve == \E r \in (IF "rho" \in FieldSet THEN Vals ELSE {B(0)}) :
           /\ p' = (IF "rho" \in FieldSet THEN [p EXCEPT !["rho"] = r] ELSE p)
           /\ last' = <<"solve", r>>
Next == (\E op \in MCOps : \E v \in Values(op) : Do(op, v)) \/ Solve
Spec == Init /\ [][Next]_vars
View == p
Ranges == InRange(p)
\* what the user set is what the solver uses until it is set again
Sticky == [][/\ \A f \in FieldSet : p'[f] # p[f] => IF last'[1] = "solve" THEN f = "rho" ELSE f \in Targets(last'[1])
             /\ last'[1] # "solve" /\ ~ Accept(last'[1], last'[2]) => p' = p
             /\ last'[1] # "solve" /\ Accept(last'[1], last'[2]) => \A f \in Targets(last'[1]) \cap FieldSet : p'[f] = last'[2]
             /\ last'[1] = "solve" => Solved(p, p')]_vars
=============================================================================
