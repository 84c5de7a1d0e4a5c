-------------------------------- MODULE Twin --------------------------------
(***************************************************************************)
(* Self-composition: two executions that start from the same request must   *)
(* be indistinguishable at every observable event.                          *)
(*                                                                         *)
(* A trace line holds two recordings a and b.  The specification walks both *)
(* in lockstep; its state says which published quantities are already       *)
(* defined by this solve (anything older is not part of the answer):        *)
(*   kk    an optimality check has been made: residual, multipliers         *)
(*   st    a trial step has been made: step length                          *)
(*   ck    the current subproblem has had a convergence check               *)
(***************************************************************************)
EXTENDS OCP, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
Sizes == [k \in 1..Len(Traces) |-> IF Len(Traces[k].a) < Len(Traces[k].b) THEN Len(Traces[k].a) ELSE Len(Traces[k].b)]
VARIABLES k, i, s
vars == <<k, i, s>>
Hd == Traces[k]
A == Hd.a[i]
B == Hd.b[i]


Traj(e)  == [xs |-> TSame(A.xs, B.xs), us |-> TSame(A.us, B.us)]
\* not every solver publishes every quantity
Has(f) == f \in DOMAIN A
\* cost, gaps and violation are sums over the stages, whose order depends on the number of threads
Sums == {"cost", "acost", "m", "gap", "viol"}
Rounded(f) == Hd.scen = "thr" /\ f \in Sums /\ Close(A[f], B[f], FPow10(0 - 11))
Nums(fs) == \A f \in fs : Has(f) => FSame(A[f], B[f]) \/ Rounded(f)
SoftNow == Hd.scen = "thr" /\ \E f \in Sums : Has(f) /\ f \in DOMAIN B /\ ~ FSame(A[f], B[f])
Trjs(fs) == \A f \in fs : Has(f) => TSame(A[f], B[f])
Eqs(fs)  == \A f \in fs : A[f] = B[f]
D(ok, what) == IF ok THEN {} ELSE {what}
CSQP == Hd.kind = "CSQP"

Diff ==
  CASE A.e # B.e -> {"a different sequence of steps"}
    [] A.e = "begin" -> {}
    [] A.e = "dirb" -> D(Trjs({"xs", "us"}), "iterate") \cup D(Nums({"preg", "dreg"}), "regularization")
    [] A.e = "exp" -> D(Nums({"d0", "d1"}), "expected improvement")
    [] A.e = "eq" -> D(Trjs({"dx", "du"}), "equality-constrained direction")
    [] A.e = "qp" -> D(Eqs({"it", "full"}), "QP schedule") \cup D(Trjs({"dx", "du", "dxt", "dut", "y", "z"}), "QP iterate")
                     \cup D(Trjs({"rho"}) /\ Nums({"rhosp"}), "QP penalty")
    [] A.e = "dire" -> D(A.ok = B.ok, "subproblem failure")
                       \cup (IF A.ok /\ B.ok
                             THEN D(Nums({"cost", "gap", "viol"}), "metrics") \cup D(Trjs({"dx", "du", "k", "vx", "fs"}), "direction")
                                  \cup (IF CSQP THEN D(Eqs({"it", "tmo"}), "QP iterations") \cup D(Trjs({"y"}), "constraint multipliers") ELSE {})
                                  \cup (IF Hd.kind = "KKT" THEN D(Nums({"kkt"}), "metrics") \cup D(Trjs({"lag"}), "multipliers") ELSE {})
                                  \cup (IF CSQP /\ s.ck THEN D(Nums({"np", "nd_", "npt", "ndt"}), "QP residuals") ELSE {})
                             ELSE {})
    [] A.e = "stop" -> D(Nums({"v"}), "metrics") \cup D(Trjs({"xs", "us"}), "iterate")
    [] A.e = "kkt" -> D(Trjs({"xs", "us"}), "iterate") \cup D(Nums({"kkt", "cost", "gap", "viol"}), "metrics") \cup D(Trjs({"lag", "y"}), "multipliers")
    [] A.e = "cb" -> D(Eqs({"id", "type", "aiter"}), "callback") \cup D(Trjs({"xs", "us"}), "iterate")
                     \cup D(Nums({"kkt", "cost", "gap", "viol", "acost", "preg"}), "metrics")
                     \cup (IF s.st THEN D(Nums({"astep"}), "step length") ELSE {})
    [] A.e = "try" -> D(A.ok = B.ok /\ Nums({"a"}), "trial steps")
                      \cup (IF A.ok /\ B.ok THEN D(Trjs({"xs", "us"}), "trial point") \cup D(Nums({"m", "cost", "gap", "viol"}), "trial metrics") ELSE {})
    [] A.e = "end" -> D(Eqs({"ret"}), "verdict") \cup D(Trjs({"xs", "us"}), "result") \cup D(Nums({"preg", "dreg"}), "regularization")
                      \cup (IF A.ret # 2 THEN D(Eqs({"iter", "tmo"}), "iteration count") ELSE {})
                      \cup (IF s.kk /\ A.ret # 2 THEN D(Nums({"kkt"}), "metrics") ELSE {})
    [] OTHER -> {}

Upd ==
  CASE A.e = "kkt" -> [s EXCEPT !.kk = TRUE, !.n.kkt = @ + 1]
    [] A.e = "try" -> [s EXCEPT !.st = TRUE, !.n.try = @ + 1]
    [] A.e = "dirb" -> [s EXCEPT !.ck = FALSE, !.n.dirs = @ + 1]
    [] A.e = "qp" -> [s EXCEPT !.ck = @ \/ A.it % Hd.a[1].cfg.rhoint = 0, !.n.qp = @ + 1]
    [] A.e = "end" -> [s EXCEPT !.n.pairs = @ + 1, !.n.conv = @ + (IF A.ret = 1 THEN 1 ELSE 0)]
    [] OTHER -> s

Last == i = Sizes[k]
Err == Diff \cup (IF Last /\ Len(Hd.a) # Len(Hd.b) THEN {"a different sequence of steps"} ELSE {})
Prop == CASE Hd.scen = "hist" -> "P13" [] Hd.scen = "mut" -> "P15" [] Hd.scen = "thr" -> "P18" [] OTHER -> Hd.scen
Clause(x) == (IF Hd.scen = "hist" THEN "the past of the solver changes: "
              ELSE IF Hd.scen = "thr" THEN "the number of threads changes: "
              ELSE IF Hd.scen = "mut" THEN "a changed problem is not solved like a fresh one: " ELSE "executions differ in: ") \o x

Init == k \in 1..Len(Traces) /\ i = 1
        /\ s = [kk |-> FALSE, st |-> FALSE, ck |-> FALSE, dead |-> FALSE, soft |-> FALSE,
                n |-> [kkt |-> 0, try |-> 0, dirs |-> 0, qp |-> 0, pairs |-> 0, conv |-> 0]]
Next ==
  /\ i <= Sizes[k]
  /\ LET all == IF s.dead THEN {} ELSE Err   \* the first difference explains the later ones
         \* a cost that is only equal up to rounding may tip a comparison
         err == IF s.soft THEN {} ELSE all
     IN /\ s' = [(IF s.dead \/ all # {} THEN s ELSE Upd) EXCEPT !.dead = @ \/ all # {}, !.soft = @ \/ (~ s.dead /\ SoftNow)]
        /\ \A x \in err : PrintT("@@V " \o ToJson([p |-> Prop, c |-> Clause(x), id |-> Hd.id, kind |-> Hd.kind, ev |-> i]))
  /\ i' = i + 1
  /\ k' = k
  /\ Last => PrintT("@@S " \o ToJson(s'.n))
Spec == Init /\ [][Next]_vars
=============================================================================
