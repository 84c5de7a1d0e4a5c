------------------------------ MODULE KktTrace ------------------------------
(* Checks executions recorded from SolverKKT against Kkt.tla.               *)
EXTENDS Kkt, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
Meta == [k \in 1..Len(Traces) |-> Len(Traces[k].ev)]
VARIABLES k, i, s, q
vars == <<k, i, s, q>>
Ev(j) == Traces[k].ev[j]
Hd == Traces[k]
E(ok, clause) == IF ok THEN {} ELSE {clause}
CFG == [maxit |-> Ev(q.b).maxit] @@ Ev(q.b).cfg
B0 == Ev(q.b)
D0 == Ev(q.db)
P0 == Ev(q.de)
Q0 == [b |-> 0, db |-> 0, de |-> 0, cur |-> 0, in |-> FALSE,
       n |-> [acc |-> 0, rej |-> 0, ref |-> 0, dirs |-> 0, fails |-> 0, sys |-> 0, conv |-> 0, stop |-> 0, cb |-> 0, solves |-> 0, open |-> 0]]

TOL == FPow10(0 - 8)
Big == FPow10(29)
StartXs(b) == IF Len(b.ixs) = 0 THEN [t \in 1..(Hd.T + 1) |-> VZero(Hd.nx)] ELSE b.ixs
StartUs(b) == IF Len(b.ius) = 0 THEN [t \in 1..Hd.T |-> VZero(Hd.nu[t])] ELSE b.ius
CurXs == IF q.cur = 0 THEN StartXs(B0) ELSE Ev(q.cur).xs
CurUs == IF q.cur = 0 THEN StartUs(B0) ELSE Ev(q.cur).us
SameAsCur(e) == TSame(e.xs, CurXs) /\ TSame(e.us, CurUs)
HasNd(e) == "nd" \in DOMAIN e /\ Len(e.nd) > 0
VFinT(v) == \A t \in 1..Len(v) : AllFin(v[t])
Neg(v) == [t \in 1..Len(v) |-> VScale(0 - 1, v[t])]
HessFin(nd) == \A t \in 1..Len(nd) : MFin(nd[t].Lxx) /\ (t = Len(nd) \/ (MFin(nd[t].Luu) /\ MFin(nd[t].Lxu) /\ MFin(nd[t].Fx) /\ MFin(nd[t].Fu)))
On == q.de > 0 /\ P0.ok /\ HasNd(D0) /\ PointFin(D0.nd) /\ HessFin(D0.nd) /\ VFinT(P0.dx) /\ VFinT(P0.du) /\ VFinT(P0.lag)
Gap0 == DiffX(Hd.ang, D0.xs[1], B0.x0)

RECURSIVE NextMove(_)
NextMove(j) == IF j > Len(Hd.ev) THEN 0 ELSE IF Ev(j).e \in {"stop", "end", "try"} THEN j ELSE NextMove(j + 1)
Kept(e, pred) ==
  LET j == NextMove(i + 1) IN
  IF j = 0 \/ Ev(j).e = "try" THEN FALSE
  ELSE LET new == TSame(Ev(j).xs, e.xs) /\ TSame(Ev(j).us, e.us)
       IN IF new /\ SameAsCur(Ev(j)) THEN pred ELSE new

Expected ==
  CASE s.ph = "idle" -> "begin" [] q.in -> "dire" [] s.ph = "dir" -> "dirb" [] s.ph = "exp" -> "exp" [] s.ph = "stop" -> "stop"
    [] s.ph = "cb" -> "cb" [] s.ph = "ls" -> "try" [] OTHER -> "end"
FlowErr(e) ==
  LET x == Expected IN
  IF e.e = x THEN {}
  ELSE IF e.e = "hang" THEN {"solve does not terminate"}
  ELSE IF e.e = "end" /\ e.ret = 2 THEN {"exception escapes solve"}
  ELSE IF x = "cb" \/ e.e = "cb" THEN {"callbacks not delivered once per iteration in order"}
  ELSE IF x = "try" \/ e.e = "try" THEN {"line search does not try the listed step lengths until one is acceptable"}
  ELSE IF x = "end" THEN {IF s.why \in {"conv", "stop"} THEN "does not stop at a converged iterate" ELSE "goes on after the last iteration"}
  ELSE IF e.e = "end" THEN {"stops before the iteration budget is used"}
  ELSE {"steps of an iteration out of order"}

R(s2, q2, err) == [s |-> s2, q |-> q2, err |-> err]
OnBegin(e) == R(KStart([maxit |-> e.maxit] @@ e.cfg, e.feas), [Q0 EXCEPT !.b = i, !.n = q.n, !.n.solves = @ + 1], {})
OnDirBegin(e) ==
  R([s EXCEPT !.ph = "dir", !.isf = e.isf], [q EXCEPT !.db = i, !.in = TRUE, !.cur = i, !.n.dirs = @ + 1],
    E(SameAsCur(e), IF q.cur = 0 THEN "start point is not the given guess" ELSE "iterate changed outside the line search")
    \cup E(e.isf = s.isf, "feasibility of the iterate"))
KSlack(nd, lam) == FMul(FPow10(0 - 10), KScale(nd, ZeroX(nd), ZeroU(nd), lam))
OnDirEnd(e) ==
  LET d == D0
      on == e.ok /\ HasNd(d) /\ PointFin(d.nd) /\ HessFin(d.nd)
      fin == VFinT(e.dx) /\ VFinT(e.du) /\ VFinT(e.lag)
      lam == Neg(e.lag)
      g0 == DiffX(Hd.ang, d.xs[1], B0.x0)
      res == FMax(KStat(d.nd, e.dx, e.du, lam), KDyn(d.nd, e.dx, e.du, g0))
      err == IF ~ e.ok THEN E(~ HasNd(d) \/ ~ PointFin(d.nd) \/ Hd.faulty, "a solve is abandoned although the model can be evaluated")
             ELSE IF ~ on THEN E(~ HasNd(d) \/ DerivFin(d.nd) \/ ~ FLe(e.kkt, CFG.tol), "converged at a point with non-finite values")
             ELSE E(Close(e.cost, CostOf(d.nd), TOL), "cost is not that of the iterate")
                  \cup (IF ~ fin THEN E(~ FLe(e.kkt, CFG.tol), "converged at a point with non-finite values")
                        ELSE E(FLe(res, FMul(FPow10(0 - 7), KScale(d.nd, e.dx, e.du, lam))), "direction and multipliers do not solve the KKT system")
                             \cup E(FLe(FSub(DKktLow(d.nd, lam, g0), KSlack(d.nd, lam)), e.kkt) /\ FLe(e.kkt, FAdd(DKktHigh(d.nd, lam, g0), KSlack(d.nd, lam))),
                                    "KKT residual is not that of the iterate and multipliers"))
      q1 == [q EXCEPT !.de = i, !.in = FALSE, !.n.sys = @ + (IF on /\ fin THEN 1 ELSE 0), !.n.fails = @ + (IF e.ok THEN 0 ELSE 1),
             !.n.open = @ + (IF on /\ FLt(FPow10(0 - 3), GapInf(d.nd)) THEN 1 ELSE 0)]
  IN IF e.ok THEN R(KDirOk(s, e.cost, e.kkt), q1, err) ELSE R(KDirFail(s), q1, err)
OnExp(e) ==
  LET m == KModelOf(D0.nd, P0.dx, P0.du)
      sl == FMul(FPow10(0 - 9), FMax(1, KModelScale(D0.nd, P0.dx, P0.du)))
  IN IF s.ph # "exp" THEN R(s, q, {})
     ELSE R(KModel(CFG, s, <<e.d0, e.d1>>), q,
            IF ~ On THEN {} ELSE E(FLe(FAbs(FSub(e.d0, m[1])), sl) /\ FLe(FAbs(FSub(e.d1, m[2])), sl), "expected improvement"))
NearTie(c, m) ==
  LET ex == FMul(c.thacc, Expected2(s.d, c.alphas[s.ai]))
      dv == FSub(s.met, m)
      sc == FMax(1, FMaxSeq(<<FAbs(s.met), FAbs(m), FAbs(ex), FAbs(s.d[1])>>))
      near(x) == FLe(FAbs(x), FMul(FPow10(0 - 11), sc))
  IN near(FSub(dv, ex)) \/ near(FSub(s.d[1], c.thgrad))
OnTry(e) ==
  LET c == CFG
      a == c.alphas[s.ai]
      bad == e.tthr \/ ~ FIsFin(e.tc)
      pred == e.ok /\ ~ bad /\ KAcceptable(c, s, e.cost)
      obs == Kept(e, pred)
      acc == IF e.ok /\ ~ bad /\ NearTie(c, e.cost) THEN obs ELSE pred
      pts == IF ~ e.ok THEN E(bad \/ ~ FLe(FAbs(e.tc), Big), "a trial with finite values is refused")
             ELSE E(\A t \in 1..(Hd.T + 1) : \/ ~ AllFin(P0.dx[t])
                        \/ LET x == Retract(Hd.ang, CurXs[t], VScale(a, P0.dx[t])) IN
                           VClose(e.xs[t], x, FPow10(0 - 12)) \/ FLe(NormInf(DiffX(Hd.ang, x, e.xs[t])), FMul(FPow10(0 - 9), FMax(1, NormInf(x)))),
                    "trial state is not the retraction of the step")
                  \cup E(\A t \in 1..Hd.T : ~ AllFin(P0.du[t]) \/ VClose(e.us[t], VAdd(CurUs[t], VScale(a, P0.du[t])), FPow10(0 - 12)), "trial control is not the scaled step")
                  \cup E(bad \/ Close(e.cost, e.tc, TOL), "cost of a trial is not that of the trial point")
      err == E(FSame(e.a, a), "line search does not try the listed step lengths until one is acceptable") \cup pts
        \cup (IF obs = acc THEN {}
              ELSE IF obs THEN {IF bad \/ ~ e.ok THEN "a trial with non-finite values is accepted" ELSE "an unacceptable trial is accepted"}
              ELSE {"an acceptable trial is rejected"})
      q1 == IF obs THEN [q EXCEPT !.cur = i, !.n.acc = @ + 1] ELSE [q EXCEPT !.n.rej = @ + 1, !.n.ref = @ + (IF e.ok THEN 0 ELSE 1)]
  IN IF s.ph # "ls" \/ s.ai > Len(c.alphas) THEN R(s, q1, {})
     ELSE R(IF obs THEN KTake(c, s, e.cost) ELSE KRefuse(c, s), q1, err)
OnStop(e) ==
  LET lam == Neg(P0.lag)
      v == KStopOf(D0.nd, lam, Gap0)
      sc == KScale(D0.nd, ZeroX(D0.nd), ZeroU(D0.nd), lam)
  IN IF s.ph # "stop" THEN R(s, q, {})
     ELSE R(KStop(CFG, s, e.v), [q EXCEPT !.n.stop = @ + 1],
            E(SameAsCur(e), "iterate changed outside the line search")
            \cup (IF ~ On THEN {} ELSE E(FLe(FAbs(FSub(e.v, v)), FMul(FPow10(0 - 9), FMax(v, FMul(sc, FMul(sc, FPow10(0 - 5)))))), "stopping measure")))
OnCb(e) ==
  IF s.ph # "cb" THEN R(s, q, {})
  ELSE R(KCb(CFG, s), [q EXCEPT !.n.cb = @ + 1],
         E(e.id = s.cb /\ e.aiter = s.iter, "callbacks not delivered once per iteration in order")
         \cup E(SameAsCur(e), "iterate changed outside the line search")
         \cup E(FSame(e.astep, s.step) /\ FSame(e.stop, s.stop) /\ FSame(e.kkt, s.kkt) /\ FSame(e.acost, s.met), "what a callback sees"))
OnEnd(e) ==
  LET c == CFG
      err == E(Len(e.xs) = Hd.T + 1 /\ Len(e.us) = Hd.T, "result has the wrong length")
        \cup E(e.ret = 2 \/ SameAsCur(e), "result is not the last accepted iterate")
        \cup (IF s.ph # "done" THEN {}
              ELSE E(e.ret = s.ret, "result of solve does not reflect the convergence checks") \cup E(e.iter = s.iter, "iteration count")
                   \cup E(e.isf = s.isf, "feasibility of the iterate"))
  IN R([s EXCEPT !.ph = "idle"], [q EXCEPT !.in = FALSE, !.n.conv = @ + (IF e.ret = 1 THEN 1 ELSE 0)], err)
React(e) ==
  CASE e.e = "begin" -> OnBegin(e) [] e.e = "dirb" -> OnDirBegin(e) [] e.e = "dire" -> OnDirEnd(e) [] e.e = "exp" -> OnExp(e)
    [] e.e = "try" -> OnTry(e) [] e.e = "stop" -> OnStop(e) [] e.e = "cb" -> OnCb(e) [] e.e = "end" -> OnEnd(e) [] e.e = "hang" -> R(s, q, {})

Init == k \in 1..Len(Traces) /\ i = 1 /\ s = [ph |-> "idle"] /\ q = Q0
Next ==
  /\ i <= Meta[k]
  /\ LET e == Ev(i)
         r == React(e)
     IN /\ s' = r.s /\ q' = r.q
        /\ \A x \in r.err \cup FlowErr(e) :
             PrintT("@@V " \o ToJson([p |-> "P22", c |-> x, id |-> Hd.id, kind |-> Hd.kind, ev |-> i]))
  /\ i' = i + 1 /\ k' = k
  /\ i = Meta[k] => PrintT("@@S " \o ToJson(q'.n))
Spec == Init /\ [][Next]_vars
=============================================================================
