---------------------------- MODULE SolverTrace -----------------------------
(***************************************************************************)
(* Checks executions recorded from SolverSQP, SolverCSQP and SolverPROXQP   *)
(* against Machine.tla and Admm.tla.                                        *)
(*                                                                         *)
(* A trace is a sequence of events.  Reading event i, the specification's   *)
(* state s says what has to happen next and with which values; every        *)
(* disagreement is reported as <<property, clause>>, after which the        *)
(* specification adopts what the implementation did, so that one deviation  *)
(* is not reported as many.                                                 *)
(***************************************************************************)
EXTENDS Machine, Admm, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
Meta == [k \in 1..Len(Traces) |-> Len(Traces[k].ev)]

VARIABLES k, i, s, q
vars == <<k, i, s, q>>

Ev(j) == Traces[k].ev[j]
Hd == Traces[k]
E(ok, prop, clause) == IF ok THEN {} ELSE {<<prop, clause>>}
Cfg(b) == [kind |-> Hd.kind, maxit |-> b.maxit] @@ b.cfg
CFG == Cfg(Ev(q.b))

\* bookkeeping: event indices and counters
Q0 == [b |-> 0,        \* begin event
       db |-> 0,       \* last direction request
       de |-> 0,       \* last direction result
       qp |-> 0,       \* last QP iteration seen in this direction
       eq |-> 0,       \* equality-only QP of this direction
       cur |-> 0,      \* event that carries the current iterate
       in |-> FALSE,   \* inside computeDirection
       n |-> [acc |-> 0, rej |-> 0, ref |-> 0, dirs |-> 0, fails |-> 0, lq |-> 0, qp |-> 0,
              conv |-> 0, pq |-> 0, cert |-> 0, cb |-> 0, rho |-> 0, late |-> 0, solves |-> 0]]
Cnt(f) == [q EXCEPT !.n[f] = @ + 1]

TOL == FPow10(0 - 8)
LSPROP == IF CFG.filter THEN "P04" ELSE "P05"
Scripted == Hd.scripted

\* --- the current iterate ---------------------------------------------------
ZeroTraj(n) == [t \in 1..n |-> VZero(Hd.nx)]
StartXs(b) == IF Len(b.ixs) = 0 THEN [t \in 1..(Hd.T + 1) |-> IF t = 1 THEN b.x0 ELSE VZero(Hd.nx)]
              ELSE [b.ixs EXCEPT ![1] = b.x0]
StartUs(b) == IF Len(b.ius) = 0 THEN [t \in 1..Hd.T |-> VZero(Hd.nu[t])] ELSE b.ius
CurXs == IF q.cur = 0 THEN StartXs(Ev(q.b)) ELSE Ev(q.cur).xs
CurUs == IF q.cur = 0 THEN StartUs(Ev(q.b)) ELSE Ev(q.cur).us
SameAsCur(e) == TSame(e.xs, CurXs) /\ TSame(e.us, CurUs)

\* --- numbers the solver publishes --------------------------------------------
Mag(nd, lam, y) == FMax(1, FMaxSeq(
  [t \in 1..Tt(nd) |-> FMaxSeq(<<NormInf(nd[t].Lx), NormInf(nd[t].Lu), NormInf(lam[t + 1]),
      NormInf(MatTVec(nd[t].Fx, lam[t + 1], Nx(nd))), NormInf(MatTVec(nd[t].Fu, lam[t + 1], Nu(nd[t]))),
      NormInf(GxTy(nd, y, t)), NormInf(GxTy(nd, y, t + 1)), NormInf(GuTy(nd, y, t)), NormInf(nd[t + 1].Lx)>>)]))
Slack(nd, lam, y) == FMul(FPow10(0 - 10), Mag(nd, lam, y))
KktFaithful(nd, e) ==
  LET sl == Slack(nd, e.lag, e.y) IN
  /\ FLe(FSub(KktResidual(nd, e.lag, e.y), sl), e.kkt)
  /\ FLe(e.kkt, FAdd(KktResidualFull(nd, e.lag, e.y), sl))
KktSmall(nd, e, tol) == FLe(KktResidual(nd, e.lag, e.y), FAdd(tol, Slack(nd, e.lag, e.y)))
\* metrics agree with the model
MetOk(nd, cost, gap, viol) ==
  Close(cost, CostOf(nd), TOL) /\ Close(gap, GapOf(nd), TOL)
    /\ (Hd.kind = "SQP" \/ Close(viol, ViolOf(nd), TOL))
ViolM(e) == IF Hd.kind = "SQP" THEN 0 ELSE e.viol
HasNd(e) == "nd" \in DOMAIN e /\ Len(e.nd) > 0
MeanNorm(v, n) == FDiv(FSum([t \in 1..Len(v) |-> Norm1(v[t])]), n)

\* --- lookahead: did the line search keep this trial? ---------------------------
RECURSIVE NextMove(_)
NextMove(j) == IF j > Len(Hd.ev) THEN 0
               ELSE IF Ev(j).e \in {"dirb", "end", "try"} THEN j ELSE NextMove(j + 1)
Kept(e, pred) ==
  LET j == NextMove(i + 1) IN
  IF j = 0 \/ Ev(j).e = "try" THEN FALSE
  ELSE LET new == TSame(Ev(j).xs, e.xs) /\ TSame(Ev(j).us, e.us)
           old == SameAsCur(Ev(j))
       IN IF new /\ old THEN pred ELSE new
\* merit comparisons that floating point cannot decide
NearTie(c, m) ==
  /\ ~ c.filter /\ ~ Hd.exact
  /\ LET a == Merit(c, m, s.mul)  b == Merit(c, s.met, s.mul)
     IN FLe(FAbs(FSub(a, b)), FMul(FPow10(0 - 10), FMax(1, FMax(FAbs(a), FAbs(b)))))

Late(c, clk) == Hd.kind = "CSQP" /\ FLe(c.maxtime, FSub(clk, Ev(q.b).clk))

\* --- what has to come next -------------------------------------------------------
Expected ==
  CASE s.ph = "idle" -> "begin" [] q.in -> "dire" [] s.ph = "dir" -> "dirb" [] s.ph = "kkt" -> "kkt"
    [] s.ph = "cb" -> "cb" [] s.ph = "ls" -> "try" [] OTHER -> "end"
FlowErr(e) ==
  LET x == Expected IN
  IF e.e = x THEN {}
  ELSE IF x = "dire" /\ e.e \in {"eq", "qp"} THEN {}
  ELSE IF e.e = "hang" THEN {<<"P07", "solve does not terminate">>}
  ELSE IF e.e = "end" /\ e.ret = 2
       THEN IF x = "dirb" /\ Hd.kind = "CSQP" /\ ~ Scripted /\ Hd.faulty THEN {}  \* the initial guess cannot be evaluated
            ELSE {<<"P06 P07", "exception escapes solve">>}
  ELSE IF x = "cb" \/ e.e = "cb" THEN {<<"P14", "callbacks not delivered once per iteration in order">>}
  ELSE IF x = "try" THEN {<<LSPROP, "line search abandoned before its step lengths were exhausted">>}
  ELSE IF e.e = "try" THEN {<<LSPROP, "line search continues after it should have ended">>}
  ELSE IF x = "end"
       THEN CASE s.why = "conv" -> {<<"P01", "does not stop at a converged iterate">>}
              [] s.why = "regmax" -> {<<"P08 P07", "does not give up at the regularization limit">>}
              [] s.why = "late" -> {<<"P12", "does not stop at the time limit">>}
              [] s.why = "stuck" -> {<<"P07", "does not stop when no step length is acceptable">>}
              [] OTHER -> {<<"P07", "goes on after the last iteration">>}
  ELSE IF e.e = "end" /\ x = "dirb"
       THEN IF e.tmo /\ ~ s.tmo THEN {<<"P12", "time limit reported before it was reached">>}
            ELSE IF s.xt THEN {<<"P07 P01", "extra iteration missing">>}
            ELSE {<<"P07 P08 P12", "stops before the iteration budget is used">>}
  ELSE {<<"P01", "convergence check missing">>}

\* --- direction ---------------------------------------------------------------------
DTOL == FPow10(0 - 6)
Usable(nd, dx) == PointFin(nd) /\ \A t \in 1..Len(dx) : AllFin(dx[t])
SqpDirErr(d, e) ==
  IF Scripted \/ ~ HasNd(d) \/ ~ e.ok \/ ~ Usable(d.nd, e.dx) THEN {}
  ELSE E(FLe(LqResidual(d.nd, e.dx, e.du, d.preg, d.dreg, ZeroX(d.nd), ZeroU(d.nd)), DTOL),
         "P09", "direction does not solve the regularised LQ problem")
DirMetErr(d, e) ==
  IF Scripted \/ ~ HasNd(d) \/ ~ PointFin(d.nd) THEN {}
  ELSE E(MetOk(d.nd, e.cost, e.gap, e.viol), "P02 " \o LSPROP, "cost, gap or constraint norm not those of the iterate")
\* PROXQP: whenever the reported residuals say that the subproblem is solved, the
\* direction and the multipliers satisfy its optimality conditions
PTOL == FPow10(0 - 5)
QpSolved(c, e) == e.it < c.proxqp /\ FLe(e.np, FPow10(0 - 8)) /\ FLe(e.nd_, FPow10(0 - 8)) /\ (FLt(0, e.np) \/ FLt(0, e.nd_))  \* ProxQP publishes two zeros for a QP it gave up on
Replaced == Hd.exact /\ Hd.kind = "PROXQP"   \* the recorder put the exact solution in place of the direction
ProxOn(d, e) == ~ Replaced /\ Hd.kind = "PROXQP" /\ ~ Scripted /\ HasNd(d) /\ e.ok /\ Usable(d.nd, e.dx) /\ BoundsOk(d.nd)
\* a convex QP without constraint rows, or one that dx = 0 satisfies, has a solution
MustSolve(c, d) ==
  /\ Hd.convex /\ c.proxqp >= 1000
  /\ \/ \A t \in 1..Len(d.nd) : Len(d.nd[t].g) = 0
     \/ FEq(GapOf(d.nd), 0) /\ FEq(ViolOf(d.nd), 0)
ProxErr(c, d, e) ==
  IF ~ ProxOn(d, e) THEN {}
  ELSE LET sc == QpScale(d.nd, e.dx, e.du, e.lag, e.y)
           small(r) == FLe(r, FMul(PTOL, sc))
       IN (IF ~ QpSolved(c, e) /\ ~ MustSolve(c, d) THEN {}
                ELSE E(small(QpStatNorm(d.nd, e.dx, e.du, e.lag, e.y)), "P20", "direction and multipliers are not stationary for the local QP")
                     \cup E(small(QpFeasNorm(d.nd, e.dx, e.du)), "P20", "direction violates the linearised dynamics or constraints")
                     \cup E(~ Hd.convex \/ small(QpComplNorm(d.nd, e.dx, e.du, e.y)), "P20", "constraint multiplier away from its bound"))
\* what is published about the size of the step
StepNormErr(d, e) ==   \* d: the direction, e: where the norms are published
  IF Scripted \/ Replaced \/ ~ d.ok \/ \E t \in 1..Len(d.dx) : ~ AllFin(d.dx[t]) THEN {}
  ELSE E(Close(e.xg, MeanNorm(d.dx, Hd.T + 1), TOL) /\ Close(e.ug, MeanNorm(d.du, Hd.T), TOL), "P02", "published step norms are not those of the direction")
SpuriousFail(d, e) ==
  IF Scripted \/ e.ok \/ ~ HasNd(d) \/ ~ Hd.convex \/ ~ PointFin(d.nd) \/ FLt(d.preg, 0) THEN {}
  ELSE {<<"P09", "a convex subproblem is reported unsolvable">>}

\* --- ADMM -----------------------------------------------------------------------------
QTOL == FPow10(0 - 7)
AdmmNd == Ev(q.db).nd
AdmmOn == Hd.kind = "CSQP" /\ ~ Scripted /\ HasNd(Ev(q.db)) /\ PointFin(AdmmNd) /\ BoundsOk(AdmmNd)
VFinT(v) == \A t \in 1..Len(v) : AllFin(v[t])
QpFin(e) == VFinT(e.y) /\ VFinT(e.z) /\ VFinT(e.dx) /\ VFinT(e.du)
\* the state in which iteration 1 starts
QpStartErr(c, e) ==
  LET d == Ev(q.db)
      \* values left over from a failed QP are dropped, not reused
      heal(v) == [t \in 1..Len(v) |-> IF AllFin(v[t]) THEN v[t] ELSE VZero(Len(v[t]))]
      ndx == IF c.eqinit /\ q.eq > 0 THEN Ev(q.eq).dx ELSE heal(d.dx)
      ndu == IF c.eqinit /\ q.eq > 0 THEN Ev(q.eq).du ELSE heal(d.du)
  IN E(\A t \in 1..Len(e.z) : VClose(e.z[t], VZero(Len(e.z[t])), 0), "P10 P13", "slack not reset")
     \cup E(\A t \in 1..Len(e.y) : VSame(e.y[t], IF c.resety THEN VZero(Len(e.y[t])) ELSE heal(d.y)[t]),
            "P10 P13", "dual start value")
     \cup E(c.eqinit => q.eq > 0, "P10", "equality-constrained initial guess not computed")
     \cup E(TSame(e.dx, ndx) /\ TSame(e.du, ndu), "P10", "primal start value")
     \cup E(c.resetrho \/ (s.iter = 0 /\ (~ s.xt \/ c.maxit = 0)) => FSame(e.rhosp, c.rho0), "P11 P13", "penalty not reset")
QpVecErr(c, e) ==
  E(\A t \in 1..Len(e.rho) : VClose(e.rho[t], RhoVec(c, e.rhosp, AdmmNd)[t], TOL),
    "P11", "row penalties do not follow the constraint type")
QpStepErr(c, e) ==
  E(FLe(XStepResidual(AdmmNd, c.sigma, Ev(q.db).preg, Ev(q.db).dreg, e.dxt, e.dut, e.dx, e.du, e.y, e.z, e.rho), DTOL),
    "P10", "x-step does not minimise the augmented Lagrangian")
EqErr(c, e) ==
  IF ~ VFinT(e.dx) THEN {}
  ELSE E(FLe(LqResidual(AdmmNd, e.dx, e.du, Ev(q.db).preg, Ev(q.db).dreg, ZeroX(AdmmNd), ZeroU(AdmmNd)), DTOL),
         "P10", "equality-constrained initial guess is not the LQ solution")
\* e: iteration n before its update, f: what follows it (next iteration or the result)
QpUpdErr(c, e, f) ==
  LET nd == AdmmNd
      cons == {t \in 1..Len(nd) : Len(nd[t].g) > 0}
      zn == [t \in 1..Len(nd) |-> ZNew(c, nd, e.dxt, e.dut, e.y, e.z, e.rho, t)]
      yn == [t \in 1..Len(nd) |-> YNew(c, nd, e.dxt, e.dut, e.y, e.z, e.rho, f.z[t], t)]
  IN E(\A t \in cons : VClose(f.z[t], zn[t], QTOL), "P10", "slack update is not the clipped relaxed point")
     \cup E(\A t \in cons : LET sc == FAdd(1, FMul(NormInf(e.rho[t]), FAdd(NormInf(zn[t]), NormInf(Relaxed(c, nd, e.dxt, e.dut, e.z, t)))))
                            IN FLe(NormInf(VSub(f.y[t], yn[t])), FMul(QTOL, FMax(sc, NormInf(yn[t])))),
            "P10", "dual update is not the scaled infeasibility")
     \cup E(TSame(f.dx, e.dxt) /\ TSame(f.du, e.dut), "P10", "primal iterate not carried over")
Res(c, e, f) ==
  LET nd == AdmmNd IN
  [p |-> Primal(nd, e.dxt, e.dut, f.z), prel |-> PrimalRel(nd, e.dxt, e.dut, f.z),
   d |-> Dual(c, nd, f.z, e.z, e.rho), drel |-> DualRel(c, nd, f.y)]
QpResErr(c, e, f) ==   \* after a checking iteration
  LET r == Res(c, e, f)
      sc == FMax(1, FMaxSeq(<<r.prel, r.drel>>))
  IN IF ~ CheckAt(c, e.it) THEN {}
     ELSE E(Close(f.np, r.p, QTOL) \/ FLe(FAbs(FSub(f.np, r.p)), FMul(QTOL, sc)), "P11", "primal residual")
          \cup E(Close(f.nd_, r.d, QTOL) \/ FLe(FAbs(FSub(f.nd_, r.d)), FMul(QTOL, FMax(sc, FMaxSeq([t \in 1..Len(e.rho) |-> NormInf(e.rho[t])])))),
                 "P11", "dual residual")
          \cup E(Close(f.npt, Tolerance(c, r.prel), QTOL) /\ Close(f.ndt, Tolerance(c, r.drel), QTOL),
                 "P11", "stopping tolerances")
RhoErr(c, e, f) ==
  LET r == Res(c, e, f)
      est == RhoEstimate(c, e.rhosp, f.np, r.prel, f.nd_, r.drel)
      want == RhoNext(c, e.rhosp, est)
      near(a, b) == FLe(FAbs(FSub(a, b)), FMul(FPow10(0 - 6), b))
      \* the threshold is met up to rounding (the upper limit is exact)
      tie == ~ FEq(est, c.rhomax) /\ (near(est, FMul(e.rhosp, c.rhotol)) \/ near(est, FDiv(e.rhosp, c.rhotol)))
  IN IF ~ CheckAt(c, e.it) THEN E(FSame(f.rhosp, e.rhosp), "P11", "penalty changed between checks")
     ELSE E(Close(f.rhosp, want, FPow10(0 - 6)) \/ tie \/ near(f.rhosp, want), "P11", "penalty adaptation")
QpConverged(f) == FLe(f.np, f.npt) /\ FLe(f.nd_, f.ndt)
QpGoErr(c, e, f) ==    \* iteration f follows e
  E(f.it = e.it + 1, "P07 P11", "QP iterations not counted one by one")
  \cup E(f.it <= c.maxqp, "P07 P11", "QP iteration budget exceeded")
  \cup E(~ (CheckAt(c, e.it) /\ QpConverged(f)), "P11", "QP loop continues although it converged")
QpLateErr(c, e) == E(~ FLe(c.maxtime, FSub(e.clk, Ev(q.b).clk)), "P12", "QP iteration started after the time limit")
QpEndErr(c, d, e, f) ==  \* the loop ended after iteration e with result f
  LET conv == CheckAt(c, e.it) /\ QpConverged(f) IN
  E(conv \/ e.it = c.maxqp \/ f.tmo, "P11 P12 P07", "QP loop stopped without meeting its tolerances")
  \cup E(f.it = e.it, "P07 P11", "reported QP iteration count")
  \cup E(f.tmo => FLe(c.maxtime, FSub(f.clk, Ev(q.b).clk)), "P12", "time limit reported before it was reached")
  \cup E((~ f.tmo /\ ~ conv /\ e.it < c.maxqp) => FALSE, "P12 P11", "QP loop cut")

\* --- events ----------------------------------------------------------------------------
R(s2, q2, err) == [s |-> s2, q |-> q2, err |-> err]

OnBegin(e) ==
  LET q1 == [Q0 EXCEPT !.b = i, !.n = q.n, !.n.solves = @ + 1]
      c == Cfg(e)
  IN R(Start(c, e.reginit, e.cfg.maxtime = "0000000000000000" /\ Hd.kind = "CSQP"), q1, {})

RegSame(a, b) == FSame(a, b) \/ FLe(FAbs(FSub(a, b)), FMul(FPow10(0 - 12), FAbs(b)))
RegMatch(c, a) == RegSame(a, s.reg) \/ (q.n.fails > 0 /\ FEq(s.reg, FMax(c.regmin, RegFloor)) /\ FLt(0, a) /\ FLe(a, c.regmax))
OnDirBegin(e) ==
  LET c == CFG
      err == E(SameAsCur(e), "P03", IF q.cur = 0 THEN "start point is not the given guess with x0 pinned" ELSE "iterate changed outside the line search")
             \cup E(RegMatch(c, e.preg) /\ FSame(e.preg, e.dreg), "P08", "regularization")
  IN R([s EXCEPT !.ph = "dir", !.reg = e.preg],
       [q EXCEPT !.db = i, !.in = TRUE, !.qp = 0, !.eq = 0, !.cur = i, !.n.dirs = @ + 1], err)
OnEq(e) ==
  R(s, [q EXCEPT !.eq = i], IF q.in /\ AdmmOn THEN EqErr(CFG, e) ELSE {})
OnQp(e) ==
  LET c == CFG
      err == IF ~ q.in THEN {}
             ELSE QpLateErr(c, e) \cup
               (IF q.qp = 0
                THEN E(e.it = 1, "P07 P11", "QP iterations not counted one by one")
                     \cup (IF AdmmOn THEN QpStartErr(c, e) ELSE {})
                ELSE QpGoErr(c, Ev(q.qp), e)
                     \cup (IF AdmmOn /\ QpFin(Ev(q.qp)) /\ VFinT(Ev(q.qp).dxt)
                           THEN QpUpdErr(c, Ev(q.qp), e) \cup QpResErr(c, Ev(q.qp), e) \cup RhoErr(c, Ev(q.qp), e) ELSE {}))
               \cup (IF AdmmOn THEN QpVecErr(c, e) ELSE {})
               \cup (IF AdmmOn /\ QpFin(e) /\ VFinT(e.dxt) THEN QpStepErr(c, e) ELSE {})
  IN R(s, [q EXCEPT !.qp = i, !.n.qp = @ + 1], err)
QpFinish(c, d, e) ==   \* ADMM clauses at the end of a direction
  IF Hd.kind # "CSQP" \/ Scripted \/ ~ e.ok THEN {}
  ELSE IF q.qp = 0
       THEN IF Hd.qpdetail THEN E(e.it = 0 /\ e.tmo, "P07", "no QP iteration performed") ELSE {}
       ELSE QpEndErr(c, d, Ev(q.qp), e)
            \cup (IF AdmmOn /\ QpFin(Ev(q.qp)) /\ VFinT(Ev(q.qp).dxt)
                  THEN QpUpdErr(c, Ev(q.qp), e) \cup QpResErr(c, Ev(q.qp), e) \cup RhoErr(c, Ev(q.qp), e) ELSE {})
OnDirEnd(e) ==
  LET c == CFG
      d == Ev(q.db)
      m == <<e.cost, e.gap, ViolM(e)>>
      err == DirMetErr(d, e) \cup SpuriousFail(d, e) \cup (IF Hd.kind = "SQP" THEN SqpDirErr(d, e) ELSE {}) \cup QpFinish(c, d, e)
             \cup ProxErr(c, d, e) \cup (IF Hd.kind = "CSQP" THEN {} ELSE StepNormErr(e, e))
      q1 == [q EXCEPT !.de = i, !.in = FALSE, !.n.pq = @ + (IF ProxOn(d, e) /\ QpSolved(c, e) THEN 1 ELSE 0)]
  IN IF ~ e.ok THEN R(DirFail(c, s), [q1 EXCEPT !.n.fails = @ + 1], err)
     ELSE IF Hd.kind = "CSQP" /\ e.it = 0
          THEN R(DirLate(c, s, m), [q1 EXCEPT !.n.late = @ + 1],
                 err \cup E(FLe(c.maxtime, FSub(e.clk, Ev(q.b).clk)), "P12", "QP refused before the time limit"))
     ELSE R([DirOk(c, s, m) EXCEPT !.tmo = @ \/ (Hd.kind = "CSQP" /\ e.tmo)], [q1 EXCEPT !.n.lq = @ + 1], err)

MulNorm(e) == FMaxSeq([t \in 1..Len(e.lag) |-> NormInf(e.lag[t])] \o [t \in 1..Len(e.y) |-> NormInf(e.y[t])])
OnKkt(e) ==
  LET c == CFG
      d == Ev(q.db)
      err == E(SameAsCur(e), "P03", "iterate changed outside the line search")
        \cup (IF Hd.kind = "CSQP" /\ q.de > 0 THEN (IF Ev(q.de).it = 0 THEN {} ELSE StepNormErr(Ev(q.de), e)) ELSE {})  \* a QP cut before its first iteration has no direction
        \cup (IF Scripted \/ ~ HasNd(d) THEN {}
              ELSE IF ~ DerivFin(d.nd) \/ ~ VFinT(e.lag) \/ ~ VFinT(e.y)
                   THEN E(~ FLe(e.kkt, c.tol), "P01", "converged at a point with non-finite values")
                   ELSE E(KktFaithful(d.nd, e), "P02 P01", "KKT residual is not that of the iterate and multipliers"))
  IN R(Kkt(c, s, e.kkt, MulNorm(e)), q, err)

\* what a user reads in a callback
MeritSame(a, b) == FSame(a, b) \/ Close(a, b, TOL) \/ ~ (FIsFin(a) \/ FIsFin(b))
CbErr(c, e) ==
  LET d == Ev(q.db) IN
  E(e.id = s.cb, "P14", "callbacks not delivered once per iteration in order")
  \cup E(SameAsCur(e), "P03", "iterate changed outside the line search")
  \cup E(e.aiter = s.iter, "P14", "iteration number seen by a callback")
  \cup E(FSame(e.acost, s.met[1]) /\ FSame(e.cost, s.met[1]) /\ FSame(e.gap, s.met[2])
          /\ (Hd.kind = "SQP" \/ FSame(e.viol, s.met[3])), "P02 P14", "metrics seen by a callback")
  \cup E(FSame(e.preg, s.reg) \/ RegMatch(c, e.preg), "P08 P14", "regularization seen by a callback")
  \cup E((s.iter > 0 /\ FLt(0, s.step)) => FSame(e.astep, s.step), "P14", "step length seen by a callback")
  \cup E(FLe(e.kkt, c.tol) <=> s.conv, "P02 P14", "KKT residual seen by a callback")
  \cup E(MeritSame(e.merit, Merit(c, s.met, s.mul)), "P02 P14", "merit seen by a callback")
OnCb(e) ==
  IF s.ph # "cb" THEN R(s, q, {})
  ELSE R(Callback(CFG, s), Cnt("cb"), CbErr(CFG, e))

Big == FPow10(29)
TrialPointErr(c, e) ==
  LET a == c.alphas[s.ai]
      d == Ev(q.de)
      n == Hd.T IN
  IF Scripted \/ ~ e.ok THEN {}   \* a refused trial may be incomplete
  ELSE E(\A t \in 1..(n + 1) : \/ ~ AllFin(d.dx[t]) \/ ~ AllFin(CurXs[t])
                               \/ VClose(e.xs[t], Retract(Hd.ang, CurXs[t], VScale(a, d.dx[t])), FPow10(0 - 12))
                               \/ Hd.ang # [j \in 1..Hd.nx |-> FALSE] /\ FLe(NormInf(DiffX(Hd.ang, Retract(Hd.ang, CurXs[t], VScale(a, d.dx[t])), e.xs[t])), FPow10(0 - 9)),
         "P03", "trial state is not the retraction of the step")
       \cup E(\A t \in 1..n : ~ AllFin(d.du[t]) \/ VClose(e.us[t], VAdd(CurUs[t], VScale(a, d.du[t])), FPow10(0 - 12)),
              "P03", "trial control is not the scaled step")
TrialMetErr(e) ==
  IF Scripted \/ ~ e.ok \/ e.tthr \/ ~ Fin3(<<e.tc, e.tg, e.tv>>) THEN {}
  ELSE E(Close(e.cost, e.tc, TOL) /\ Close(e.gap, e.tg, TOL) /\ (Hd.kind = "SQP" \/ Close(e.viol, e.tv, TOL)),
         "P02 " \o LSPROP, "metrics of a trial step are not those of the trial point")
       \cup E(Close(e.m, Merit(CFG, <<e.cost, e.gap, ViolM(e)>>, s.mul), TOL), "P05", "merit value of a trial step")
TrialRefErr(e) ==
  IF Scripted THEN {}
  ELSE E((~ e.tthr /\ Fin3(<<e.tc, e.tg, e.tv>>) /\ FLe(FAbs(e.tc), Big)) => e.ok, "P06", "a trial with finite values is refused")
OnTry(e) ==
  LET c == CFG
      m == IF e.ok THEN <<e.cost, e.gap, ViolM(e)>> ELSE <<FNaN, FNaN, FNaN>>
      truthBad == ~ Scripted /\ (e.tthr \/ ~ FIsFin(e.tc) \/ ~ FIsFin(e.tg) \/ (Hd.kind # "SQP" /\ ~ FIsFin(e.tv)))
      pred == e.ok /\ ~ truthBad /\ Acceptable(c, s, m)
      obs == Kept(e, pred)
      acc == IF NearTie(c, m) /\ e.ok /\ ~ truthBad THEN obs ELSE pred
      err == E(FSame(e.a, c.alphas[s.ai]), LSPROP, "step lengths not tried in the given order")
        \cup TrialPointErr(c, e) \cup TrialMetErr(e) \cup TrialRefErr(e)
        \cup (IF obs = acc THEN {}
              ELSE IF obs THEN IF ~ e.ok \/ truthBad \/ ~ Fin3(m) THEN {<<"P06", "a trial with non-finite values is accepted">>}
                               ELSE {<<LSPROP, "an unacceptable trial is accepted">>}
              ELSE {<<LSPROP, "an acceptable trial is rejected">>})
      q1 == IF obs THEN [q EXCEPT !.cur = i, !.n.acc = @ + 1]
            ELSE [q EXCEPT !.n.rej = @ + 1, !.n.ref = @ + (IF e.ok THEN 0 ELSE 1)]
      late == Late(c, e.clk)
  IN IF s.ph # "ls" \/ s.ai > Len(c.alphas) THEN R(s, q1, {})
     ELSE R(IF obs THEN Accept(c, s, m, late) ELSE Reject(c, s, late), q1, err)

OnEnd(e) ==
  LET c == CFG
      dims == Len(e.xs) = Hd.T + 1 /\ Len(e.us) = Hd.T
      err ==
        E(dims, "P03", "result has the wrong length")
        \cup E(e.ret = 2 \/ SameAsCur(e), "P03", "result is not the last accepted iterate")
        \cup E(e.ret = 2 \/ VClose(DiffX(Hd.ang, e.xs[1], Ev(q.b).x0), VZero(Hd.nx), FPow10(0 - 12)), "P03", "initial state of the result is not x0")
        \cup (IF s.ph # "done" THEN {}
              ELSE E(e.ret = s.ret \/ (e.ret = 2 /\ Hd.faulty /\ q.db = 0 /\ Hd.kind = "CSQP"), "P01", "result of solve does not reflect the last convergence check")
                   \cup E(e.iter = s.iter, "P07", "iteration count")
                   \cup E(e.ret = 2 \/ RegMatch(c, e.preg), "P08", "regularization")
                   \cup E(Hd.kind # "CSQP" \/ (e.tmo <=> s.tmo), "P12", "time limit flag"))
        \cup (IF q.n.solves > Len(Hd.pred) THEN {}
              ELSE LET p == Hd.pred[q.n.solves] IN   \* the behaviour this run was generated from
                   E(e.ret = p.ret, "P01", "verdict differs from the generated behaviour")
                   \cup E(e.ret = 2 \/ e.iter = p.iter, "P07", "iterations differ from the generated behaviour")
                   \cup E(e.ret = 2 \/ RegSame(e.preg, p.reg), "P08", "regularization differs from the generated behaviour"))
        \cup (IF e.ret # 1 \/ Scripted \/ ~ HasNd(e) THEN {}
              ELSE IF ~ DerivFin(e.nd) THEN {<<"P01", "converged at a point with non-finite values">>}
              ELSE E(Hd.kind = "PROXQP" \/ KktSmall(e.nd, e, c.tol), "P01", "returned point does not satisfy the KKT conditions to tolerance")
                   \cup E(MetOk(e.nd, e.cost, e.gap, e.viol), "P02", "metrics after success")
                   \cup E(s.ph # "done" \/ MeritSame(e.merit, Merit(c, s.met, s.mul)), "P02", "merit after success"))
      q1 == [q EXCEPT !.in = FALSE, !.n.conv = @ + (IF e.ret = 1 THEN 1 ELSE 0)]
  IN R([s EXCEPT !.ph = "idle"], q1, err)

React(e) ==
  CASE e.e = "begin" -> OnBegin(e)
    [] e.e = "dirb"  -> OnDirBegin(e)
    [] e.e = "eq"    -> OnEq(e)
    [] e.e = "qp"    -> OnQp(e)
    [] e.e = "dire"  -> OnDirEnd(e)
    [] e.e = "kkt"   -> OnKkt(e)
    [] e.e = "cb"    -> OnCb(e)
    [] e.e = "try"   -> OnTry(e)
    [] e.e = "end"   -> OnEnd(e)
    [] e.e = "hang"  -> R(s, q, {})

Report(err) ==
  \A x \in err : PrintT("@@V " \o ToJson([p |-> x[1], c |-> x[2], id |-> Hd.id, kind |-> Hd.kind, ev |-> i]))
Summary == PrintT("@@S " \o ToJson(q.n))

Init == k \in 1..Len(Traces) /\ i = 1 /\ s = [ph |-> "idle"] /\ q = Q0
Next ==
  /\ i <= Meta[k]
  /\ LET e == Ev(i)
         r == React(e)
         err == r.err \cup FlowErr(e)
     IN /\ s' = r.s /\ q' = r.q
        /\ err # {} => Report(err)
  /\ i' = i + 1
  /\ k' = k
  /\ i = Meta[k] => PrintT("@@S " \o ToJson(q'.n))
Spec == Init /\ [][Next]_vars
=============================================================================
