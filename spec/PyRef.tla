------------------------------- MODULE PyRef --------------------------------
(***************************************************************************)
(* The reference solvers written in Python (SQP, and CSQP with each of its  *)
(* subproblem solvers), seen from outside: the same solve is repeated with  *)
(* budgets 0, 1, 2, ... so that event k shows iterate k and the solver's    *)
(* account (direction, multipliers, cost, gaps, residual) of iterate k - 1. *)
(*                                                                         *)
(* From iterate k - 1 there are two transitions.  Converge: the residual is *)
(* below the tolerance, the iterate stays, solve returns true.  Step: the   *)
(* first step length of 1, 1/2, ... whose trial is good enough is taken; if *)
(* none is, the iterate stays.                                              *)
(* The state is the last iterate and what the next decision depends on.     *)
(***************************************************************************)
EXTENDS OCP, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
Meta == [k \in 1..Len(Traces) |-> Len(Traces[k].ev)]
VARIABLES k, i, s, n
vars == <<k, i, s, n>>
Hd == Traces[k]
C == Hd.cfg
e == Hd.ev[i]
D(ok, what) == IF ok THEN {} ELSE {what}
Qp == Hd.kind \notin {"SQP", "CSQP:StagewiseQP", "CSQP:StagewiseQPKKT"}

\* --- how good a point is ----------------------------------------------------
TolM == FPow10(0 - 11)
Measure(nd) ==
  [c |-> FSum([t \in 1..Len(nd) |-> nd[t].c]),
   g |-> FSum([t \in 1..(Len(nd) - 1) |-> Norm1(nd[t].f)]),
   v |-> IF C.cons THEN FSum([t \in 1..Len(nd) |-> ViolNode([lb |-> e.nd[t].lb, ub |-> e.nd[t].ub, g |-> nd[t].g])]) ELSE 0]
MFin(m) == FIsFin(m.c) /\ FIsFin(m.g) /\ FIsFin(m.v)
\* clear of rounding
Less(a, b) == FLt(FAdd(a, FMul(TolM, FMax(1, FMax(FAbs(a), FAbs(b))))), b)
Leq(a, b) == ~ Less(b, a)
SureFilter(m, r) == Less(m.c, r.c) \/ Less(m.g, r.g) \/ (C.cons /\ Less(m.v, r.v))
MayFilter(m, r) == Leq(m.c, r.c) \/ Leq(m.g, r.g) \/ (C.cons /\ Leq(m.v, r.v))
Merit(m) ==
  IF C.cons /\ FLt(C.mu, 0) THEN FAdd(m.c, FMul(FMul("3ff028f5c28f5c29", s.lagn), FAdd(m.g, m.v)))
  ELSE FAdd(m.c, FAdd(FMul(C.mu, m.g), IF C.cons THEN FMul(C.muc, m.v) ELSE 0))
Here == Measure(e.nd)
Mem == LET q == Append(s.mem, Here) IN SubSeq(q, IF Len(q) > C.fsize THEN Len(q) - C.fsize + 1 ELSE 1, Len(q))
Sure(m) == MFin(m) /\ IF C.filter THEN \A j \in 1..Len(Mem) : SureFilter(m, Mem[j]) ELSE Less(Merit(m), Merit(Here))
May(m) == MFin(m) /\ IF C.filter THEN \A j \in 1..Len(Mem) : MayFilter(m, Mem[j]) ELSE Leq(Merit(m), Merit(Here))
Trials == IF C.filter THEN 10 ELSE 9
Firm(ms) == LET f == {j \in 1..Trials : Sure(ms[j])} IN IF f = {} THEN 0 ELSE CHOOSE j \in f : \A l \in f : j <= l
\* the step lengths that may have been taken (0: none)
Options(ms) == LET f == Firm(ms) IN
  {j \in 1..Trials : May(ms[j]) /\ (f = 0 \/ j <= f)} \cup (IF f = 0 THEN {0} ELSE {})

\* --- the direction ------------------------------------------------------------
Y == IF C.cons THEN e.y ELSE <<>>
Half(j) == IF j = 0 THEN 0 ELSE FDiv(1, CHOOSE p \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512} : p = <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512>>[j])
At(j) ==
  /\ \A t \in 1..Len(s.xs) : FLe(NormInf(DiffX(Hd.ang, Retract(Hd.ang, s.xs[t], VScale(Half(j), e.dx[t])), e.xs[t])), FMul(FPow10(0 - 9), FMax(1, NormInf(s.xs[t]))))
  /\ \A t \in 1..Len(s.us) : VClose(e.us[t], VAdd(s.us[t], VScale(Half(j), e.du[t])), FPow10(0 - 9))
Scale == QpScale(e.nd, e.dx, e.du, e.lag, Y)
\* what the subproblem solver was asked for
Acc == FAdd(FMul(10, C.eps), FMul(FMul(10, C.epsr), Scale))
Tight == FMul(FPow10(0 - 8), Scale)
Direction ==
  IF ~ C.cons
  THEN D(FLe(LqResidual(e.nd, e.dx, e.du, 0, 0, ZeroX(e.nd), ZeroU(e.nd)), FPow10(0 - 8)), "the direction does not solve the local subproblem")
       \cup D(FLe(QpStatNorm(e.nd, e.dx, e.du, e.lag, <<>>), Tight), "the multipliers are not those of the local subproblem")
  ELSE D((Qp /\ ~ e.qpok) \/ FLe(LqDynErr(e.nd, e.dx, e.du), IF Qp THEN FMax(Acc, Tight) ELSE Tight), "the direction violates the linearised dynamics")
       \cup (IF ~ e.qpok THEN {}
             ELSE D(\A t \in 1..Len(e.nd) : FLe(QpViol(e.nd, e.dx, e.du, t), FMax(Acc, Tight)), "the direction violates the linearised constraints")
                  \cup D(FLe(QpStatNorm(e.nd, e.dx, e.du, e.lag, Y), FMul(IF Qp THEN 1 ELSE FPow10(4), FMax(Acc, Tight))), "the direction does not solve the local subproblem")
                  \cup D(FLe(QpComplNorm(e.nd, e.dx, e.du, Y), FMul(100, FMax(Acc, Tight))), "a multiplier acts on an inactive constraint"))
\* C.late: the residual is taken before the direction, with the multipliers of the direction before
Lag == IF C.late THEN (IF s.lag = <<>> THEN [t \in 1..Len(e.lag) |-> [j \in 1..Len(e.lag[t]) |-> 0]] ELSE s.lag) ELSE e.lag
Account ==
  D(Close(e.cost, Here.c, TolM), "the published cost is not that of the iterate")
  \cup D(Close(e.gapn, Here.g, TolM), "the published gap is not that of the iterate")
  \cup D(Close(e.conn, Here.v, TolM), "the published constraint violation is not that of the iterate")
  \cup D(Close(e.merit, Merit(Here), TolM), "the published merit is not that of the iterate")
  \cup D(/\ FLe(KktResidual(e.nd, Lag, Y), FAdd(e.kkt, Tight))
         /\ FLe(e.kkt, FAdd(KktResidualFull(e.nd, Lag, Y), Tight)), "the published residual is not that of the iterate")
Conv == FLt(e.kkt, C.tol)
Optimal == FLe(QpComplNorm(e.nd, ZeroX(e.nd), ZeroU(e.nd), Y), FMul(FPow10(0 - 3), Scale))

Ms == [j \in 1..Len(e.tr) |-> Measure(e.tr[j])]
Start ==
  D(e.ret = 0, "a solve without iterations does not return false")
  \cup D(TClose(e.xs, Hd.start.xs, FPow10(0 - 12)) /\ TClose(e.us, Hd.start.us, FPow10(0 - 12)), "the start point is not the given guess")
Iter ==
  IF e.raised THEN {"a solve is abandoned although the model can be evaluated"}
  ELSE Account \cup (IF C.late /\ Conv THEN {} ELSE Direction)
       \cup D(e.ret = (IF Conv THEN 1 ELSE 0), "the result of solve does not reflect the residual")
       \cup (IF Conv THEN D(At(0), "a converged iterate is changed")
             ELSE LET o == Options(Ms) IN
                  D(\E j \in o : At(j),
                    IF \E j \in 1..Len(Ms) : At(j) THEN (IF \E j \in 1..Len(Ms) : At(j) /\ May(Ms[j]) THEN "an acceptable trial is passed over" ELSE "an unacceptable trial is taken")
                    ELSE IF At(0) THEN "an acceptable trial is passed over" ELSE "the new iterate is not a point of the line search"))
       \cup D(~ (C.lq /\ s.ok /\ e.qpok /\ e.k >= 3) \/ e.ret = 1, "the optimum of a linear-quadratic problem is not found")
       \cup D(~ (C.lq /\ e.qpok /\ e.ret = 1 /\ C.cons) \/ Optimal, "the returned point is not optimal")
Extra ==
  IF e.raised THEN {"a solve is abandoned although the model can be evaluated"}
  ELSE D(At(0), "the final evaluation changes the iterate") \cup Account
       \cup D(e.ret = (IF Conv THEN 1 ELSE 0), "the result of solve does not reflect the residual")
\* nothing is promised about a point where the model cannot be evaluated
Blind == ~ MFin(Here) \/ s.blind
Err == CASE e.e = "start" -> Start [] Blind -> {} [] e.e = "it" -> Iter [] OTHER -> Extra

S0 == [xs |-> <<>>, us |-> <<>>, mem |-> <<>>, lagn |-> 0, lag |-> <<>>, ok |-> TRUE, blind |-> FALSE]
LagNorm == FMax(FMaxSeq([t \in 1..Len(e.lag) |-> NormInf(e.lag[t])]), FMaxSeq([t \in 1..Len(e.y) |-> NormInf(e.y[t])]))
Moved == e.e = "it" /\ ~ e.raised /\ ~ At(0)
Init == k \in 1..Len(Traces) /\ i = 1 /\ s = S0
        /\ n = [its |-> 0, conv |-> 0, full |-> 0, short |-> 0, stuck |-> 0, qp |-> 0, active |-> 0, cb |-> 0]
Next ==
  /\ i <= Meta[k]
  /\ \A x \in Err : PrintT("@@V " \o ToJson([p |-> "P25", c |-> x, id |-> Hd.id, kind |-> Hd.kind, ev |-> i]))
  /\ s' = (CASE e.e = "start" -> [s EXCEPT !.xs = e.xs, !.us = e.us]
             [] e.e = "it" /\ ~ e.raised ->
                [xs |-> e.xs, us |-> e.us, mem |-> Mem, lagn |-> IF e.ret = 1 \/ (~ C.filter /\ At(0)) THEN s.lagn ELSE LagNorm, lag |-> e.lag, ok |-> s.ok /\ e.qpok, blind |-> s.blind \/ ~ MFin(Here)]
             [] OTHER -> s)
  /\ n' = (IF e.e # "it" \/ e.raised THEN n
           ELSE [n EXCEPT !.its = @ + 1, !.conv = @ + (IF e.ret = 1 THEN 1 ELSE 0), !.qp = @ + (IF e.qpok /\ C.cons THEN 1 ELSE 0),
                          !.full = @ + (IF Moved /\ At(1) THEN 1 ELSE 0), !.short = @ + (IF Moved /\ ~ At(1) THEN 1 ELSE 0),
                          !.stuck = @ + (IF At(0) /\ e.ret = 0 THEN 1 ELSE 0), !.cb = @ + (IF C.cb THEN 1 ELSE 0),
                          !.active = @ + (IF C.cons /\ \E t \in 1..Len(e.y) : FLt(FPow10(0 - 3), NormInf(e.y[t])) THEN 1 ELSE 0)])
  /\ i' = i + 1 /\ k' = k
  /\ (i = Meta[k] => PrintT("@@S " \o ToJson(n')))
Spec == Init /\ [][Next]_vars
=============================================================================
