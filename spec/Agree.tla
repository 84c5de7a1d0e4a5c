------------------------------- MODULE Agree --------------------------------
(***************************************************************************)
(* A strictly convex linear-quadratic problem with bounds has one optimum.  *)
(* Every solver, from every guess, with every tuning, has to find it, in as *)
(* many steps as exact subproblem solutions need, to recognise it (also     *)
(* when started there), and to prove it with multipliers.                   *)
(* The state is the optimum agreed on so far.                               *)
(***************************************************************************)
EXTENDS OCP, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
Meta == [k \in 1..Len(Traces) |-> Len(Traces[k].ev)]
VARIABLES k, i, opt, n
vars == <<k, i, opt, n>>
Hd == Traces[k]
e == Hd.ev[i]
D(ok, what) == IF ok THEN {} ELSE {what}
None == [set |-> FALSE]

Ddp == e.kind \in {"DDP", "FDDP"}
\* a merit with weights below the multipliers need not accept the exact step
\*\* with bounds, a subproblem given up on, or left after its budget of QP iterations, promises nothing
MustFind == (e.qpok \/ Hd.scen = "lq") /\ (e.label # "merit" \/ e.kind = "CSQP")
Steps == IF Ddp THEN 5 ELSE 1
Tol == FPow10(0 - 4)

Scale == FMax(1, FMaxSeq([t \in 1..Len(e.xs) |-> FMax(NormInf(e.xs[t]), NormInf(e.lag[t]))]))
Y == IF Len(e.y) > 0 THEN e.y ELSE [t \in 1..Len(e.nd) |-> VZero(Len(e.nd[t].g))]
\* at the returned point itself: dx = du = 0
\* the dense KKT solver counts its multipliers with the opposite sign
Lag == IF e.kind = "KKT" THEN [t \in 1..Len(e.lag) |-> VScale(FNeg(1), e.lag[t])] ELSE e.lag
Compl == QpComplNorm(e.nd, ZeroX(e.nd), ZeroU(e.nd), Y)
Optimal ==
  /\ DerivFin(e.nd)
  /\ FLe(KktResidual(e.nd, Lag, IF Len(e.y) > 0 THEN e.y ELSE <<>>), FMul(Tol, Scale))
  /\ FLe(Compl, FMul(Tol, FMax(Scale, FMaxSeq([t \in 1..Len(Y) |-> NormInf(Y[t])]))))
Near(a, b) == \A t \in 1..Len(a) : FLe(NormInf(VSub(a[t], b[t])), FMul(Tol, Scale))
\* the multiplier of the fixed initial state is nobody's business
Tail2(q) == SubSeq(q, 2, Len(q))

Diff ==
  IF e.ret # 1 THEN D(~ MustFind, IF e.again THEN "an optimum is not recognised when started there" ELSE "the optimum is not found")
  ELSE D(~ MustFind \/ e.iter <= (IF e.again THEN 0 ELSE Steps),
         IF e.again THEN "an optimum is not recognised when started there" ELSE "more steps than exact subproblem solutions need")
       \cup D(Optimal, "the returned point and multipliers are not optimal")
       \cup D(Close(e.cost, CostOf(e.nd), FPow10(0 - 9)), "the published cost is not that of the result")
       \cup (IF opt.set
             THEN D(Near(e.xs, opt.xs) /\ Near(e.us, opt.us), "solvers disagree about the optimum")
                  \cup D(Close(e.cost, opt.cost, Tol), "solvers disagree about the optimal cost")
                  \cup (IF Hd.scen = "lq" THEN D(Near(Tail2(Lag), Tail2(opt.lag)), "solvers disagree about the multipliers") ELSE {})
             ELSE {})

Active == e.ret = 1 /\ \E t \in 1..Len(Y) : FLt(FPow10(0 - 3), NormInf(Y[t]))
Init == k \in 1..Len(Traces) /\ i = 1 /\ opt = None /\ n = [runs |-> 0, conv |-> 0, again |-> 0, active |-> 0, pairs |-> 0]
Next ==
  /\ i <= Meta[k]
  /\ \A x \in Diff : PrintT("@@V " \o ToJson([p |-> "P21", c |-> x, id |-> Hd.id, kind |-> e.kind, ev |-> i]))
  /\ opt' = (IF opt.set \/ e.ret # 1 THEN opt ELSE [set |-> TRUE, xs |-> e.xs, us |-> e.us, cost |-> e.cost, lag |-> Lag])
  /\ n' = [n EXCEPT !.runs = @ + 1, !.conv = @ + (IF e.ret = 1 THEN 1 ELSE 0), !.again = @ + (IF e.again THEN 1 ELSE 0),
                    !.active = @ + (IF Active THEN 1 ELSE 0), !.pairs = @ + (IF opt.set THEN 1 ELSE 0)]
  /\ i' = i + 1 /\ k' = k
  /\ (i = Meta[k] => PrintT("@@S " \o ToJson(n')))
Spec == Init /\ [][Next]_vars
=============================================================================
