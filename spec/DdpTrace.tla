------------------------------ MODULE DdpTrace ------------------------------
(***************************************************************************)
(* Checks executions recorded from SolverDDP and SolverFDDP against Ddp.tla *)
(* (same conventions as SolverTrace.tla).                                   *)
(***************************************************************************)
EXTENDS Ddp, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
Meta == [k \in 1..Len(Traces) |-> Len(Traces[k].ev)]

VARIABLES k, i, s, q
vars == <<k, i, s, q>>

Ev(j) == Traces[k].ev[j]
Hd == Traces[k]
E(ok, prop, clause) == IF ok THEN {} ELSE {<<prop, clause>>}
Cfg(b) == [kind |-> Hd.kind, maxit |-> b.maxit] @@ b.cfg
CFG == Cfg(Ev(q.b))
B0 == Ev(q.b)
D0 == Ev(q.db)
P0 == Ev(q.de)

Q0 == [b |-> 0, db |-> 0, de |-> 0, cur |-> 0, in |-> FALSE, try |-> 0, ex |-> FALSE,
       n |-> [acc |-> 0, rej |-> 0, ref |-> 0, dirs |-> 0, fails |-> 0, pol |-> 0, roll |-> 0, mod |-> 0,
              conv |-> 0, cb |-> 0, solves |-> 0, open |-> 0]]

TOL == FPow10(0 - 8)
Big == FPow10(29)
ZAng == [j \in 1..Hd.nx |-> FALSE]
StartXs(b) == IF Len(b.ixs) = 0 THEN [t \in 1..(Hd.T + 1) |-> VZero(Hd.nx)] ELSE b.ixs
StartUs(b) == IF Len(b.ius) = 0 THEN [t \in 1..Hd.T |-> VZero(Hd.nu[t])] ELSE b.ius
CurXs == IF q.cur = 0 THEN StartXs(B0) ELSE Ev(q.cur).xs
CurUs == IF q.cur = 0 THEN StartUs(B0) ELSE Ev(q.cur).us
\* states agree up to the chart of angles
XNear(a, b) == LET d == DiffX(Hd.ang, a, b)  sc == FMax(1, FMax(NormInf(a), NormInf(b)))
               IN VSame(a, b) \/ FLe(NormInf(d), FMul(FPow10(0 - 9), sc))
SameAsCur(e) == /\ Len(e.xs) = Len(CurXs) /\ Len(e.us) = Len(CurUs)
                /\ TSame(e.us, CurUs)
                /\ (TSame(e.xs, CurXs) \/ \A t \in 1..Len(e.xs) : XNear(e.xs[t], CurXs[t]))
HasNd(e) == "nd" \in DOMAIN e /\ Len(e.nd) > 0
Diffs(a, b) == [t \in 1..Len(a) |-> DiffX(Hd.ang, a[t], b[t])]
PolOn == q.de > 0 /\ P0.ok /\ HasNd(D0) /\ PointFin(D0.nd) /\ PolicyFin(P0)

RECURSIVE NextMove(_)
NextMove(j) == IF j > Len(Hd.ev) THEN 0 ELSE IF Ev(j).e \in {"dirb", "end", "try", "cb"} THEN j ELSE NextMove(j + 1)
Kept(e, pred) ==
  LET j == NextMove(i + 1) IN
  IF j = 0 \/ Ev(j).e = "try" THEN FALSE
  ELSE LET new == TSame(Ev(j).xs, e.xs) /\ TSame(Ev(j).us, e.us)
           old == SameAsCur(Ev(j))
       IN IF new /\ old THEN pred ELSE new

\* FDDP evaluates its improvement model after each trial it could compute
NeedModel(e) == Hd.kind = "FDDP" /\ ~ CFG.filter /\ e.ok
Expected ==
  CASE s.ph = "idle" -> "begin" [] q.in -> "dire" [] q.ex -> "exp" [] s.ph = "dir" -> "dirb" [] s.ph = "exp" -> "exp"
    [] s.ph = "kkt" -> "kkt" [] s.ph = "cb" -> "cb" [] s.ph = "ls" -> "try" [] OTHER -> "end"
FlowErr(e) ==
  LET x == Expected IN
  IF e.e = x \/ e.e = "exp" \/ x = "exp" THEN {}
  ELSE IF e.e = "hang" THEN {<<"P24", "solve does not terminate">>}
  ELSE IF e.e = "end" /\ e.ret = 2 THEN {<<"P24", "exception escapes solve">>}
  ELSE IF x = "cb" \/ e.e = "cb" THEN {<<"P24", "callbacks not delivered once per iteration in order">>}
  ELSE IF x = "try" THEN {<<"P24", "line search abandoned before its step lengths were exhausted">>}
  ELSE IF e.e = "try" THEN {<<"P24", "line search continues after it should have ended">>}
  ELSE IF x = "end"
       THEN CASE s.why = "conv" -> {<<"P24", "does not stop at a converged iterate">>}
              [] s.why = "regmax" -> {<<"P24", "does not give up at the regularization limit">>}
              [] OTHER -> {<<"P24", "goes on after the last iteration">>}
  ELSE IF e.e = "end" THEN {<<"P24", "stops before the iteration budget is used">>}
  ELSE {<<"P24", "steps of an iteration out of order">>}

R(s2, q2, err) == [s |-> s2, q |-> q2, err |-> err]
OnBegin(e) == R(DStart(Cfg(e), e.reginit, e.feas), [Q0 EXCEPT !.b = i, !.n = q.n, !.n.solves = @ + 1], {})

RegSame(a, b) == FSame(a, b) \/ FLe(FAbs(FSub(a, b)), FMul(FPow10(0 - 12), FAbs(b)))
RegMatch(c, a) == RegSame(a, s.reg) \/ (q.n.fails > 0 /\ FEq(s.reg, FMax(c.regmin, RegFloor)) /\ FLt(0, a) /\ FLe(a, c.regmax))
OnDirBegin(e) ==
  LET c == CFG
      err == E(SameAsCur(e), "P17", IF q.cur = 0 THEN "start point is not the given guess" ELSE "iterate changed outside the line search")
        \cup E(RegMatch(c, e.preg) /\ FSame(e.preg, e.dreg), "P24", "regularization")
        \cup E(e.recalc = s.rc, "P17", "derivatives not re-evaluated at the new iterate")
        \cup E(e.isf = s.isf, "P24", "feasibility of the iterate")
  IN R([s EXCEPT !.ph = "dir", !.reg = e.preg, !.isf = e.isf], [q EXCEPT !.db = i, !.in = TRUE, !.cur = i, !.n.dirs = @ + 1], err)

OnDirEnd(e) ==
  LET c == CFG
      d == D0
      gs == Gaps(d.nd, Hd.ang, d.xs, B0.x0)
      on == HasNd(d) /\ PointFin(d.nd) /\ e.ok
      met == IF ~ on THEN {}
             ELSE E(\A t \in 1..Len(gs) : VClose(e.fs[t], gs[t], TOL), "P17", "gaps are not those of the iterate")
               \cup E(Close(e.cost, CostOf(d.nd), TOL), "P24", "cost is not that of the iterate")
               \cup E(c.kind = "DDP" \/ Close(e.gap, FSum([t \in 1..Len(gs) |-> Norm1(gs[t])]), TOL), "P24", "gap norm is not that of the iterate")
      pol == IF ~ (on /\ PolicyFin(e)) THEN {}
             ELSE {<<"P17", x>> : x \in PolicyErr(d.nd, e, d.preg, d.dreg, d.isf)}
      spur == IF e.ok \/ ~ HasNd(d) \/ ~ Hd.convex \/ ~ PointFin(d.nd) \/ FLt(d.preg, 0) \/ ~ FLe(FMaxSeq([t \in 1..Len(d.nd) |-> MMax(d.nd[t].Lxx)]), FPow10(6))
              THEN {} ELSE E(FALSE, "P17", "a convex subproblem is reported unsolvable")
      q1 == [q EXCEPT !.de = i, !.in = FALSE, !.n.pol = @ + (IF on /\ PolicyFin(e) THEN 1 ELSE 0),
             !.n.open = @ + (IF on /\ ~ d.isf /\ \E t \in 1..Len(gs) : FLt(FPow10(0 - 6), NormInf(gs[t])) THEN 1 ELSE 0)]
  IN IF e.ok THEN R(DDirOk(c, s, <<e.cost, e.gap>>), q1, met \cup pol)
     ELSE R(DDirFail(c, s), [q1 EXCEPT !.n.fails = @ + 1], spur)

ModelClose(a, b, sc) == FLe(FAbs(FSub(a, b)), FMul(FPow10(0 - 9), FMax(1, sc)))
OnExp(e) ==
  LET c == CFG IN
  IF c.kind = "DDP"
  THEN LET m == DdpModel(D0.nd, P0, D0.dreg)
           sc == ModelScale(D0.nd, P0, D0.dreg, P0.fs)
           err == IF ~ PolOn THEN {} ELSE E(ModelClose(e.d0, m[1], sc) /\ ModelClose(e.d1, m[2], sc), "P17", "expected improvement")
       IN IF s.ph = "exp" THEN R(DModel(c, s, <<e.d0, e.d1>>), [q EXCEPT !.n.mod = @ + 1], err) ELSE R(s, q, {})
  ELSE IF ~ q.ex THEN R(s, q, {})
  ELSE LET t == Ev(q.try)
           dxs == Diffs(t.xs, D0.xs)
           m == FddpModel(D0.nd, P0, D0.dreg, D0.isf, dxs)
           sc == ModelScale(D0.nd, P0, D0.dreg, dxs)
           fin == \A j \in 1..Len(dxs) : AllFin(dxs[j])
           err == IF ~ PolOn \/ ~ fin THEN {} ELSE E(ModelClose(e.d0, m[1], sc) /\ ModelClose(e.d1, FSub(m[2], 0), FMul(3, sc)), "P17", "expected improvement")
       IN R(s, [q EXCEPT !.ex = FALSE, !.n.mod = @ + 1], err)

VFinT(v) == \A t \in 1..Len(v) : AllFin(v[t])
KSlack(nd, lam) == FMul(FPow10(0 - 10), FMax(1, FMaxSeq(
  [t \in 1..Tt(nd) |-> FMaxSeq(<<NormInf(nd[t].Lx), NormInf(nd[t].Lu), NormInf(lam[t + 1]), NormInf(nd[t + 1].Lx),
      FMul(Nx(nd), FMul(MMax(nd[t].Fx), NormInf(lam[t + 1]))), FMul(Nx(nd), FMul(MMax(nd[t].Fu), NormInf(lam[t + 1])))>>)])))
KktErr(e, c) ==
  IF ~ HasNd(D0) \/ q.de = 0 THEN {}
  ELSE LET nd == D0.nd
           f1 == DiffX(Hd.ang, CurXs[1], B0.x0)
           sl == KSlack(nd, e.lag)
       IN IF ~ DerivFin(nd) \/ ~ VFinT(e.lag) \/ ~ AllFin(f1)
          THEN E(~ FLe(e.kkt, c.tol), "P24", "converged at a point with non-finite values")
          ELSE E(FLe(FSub(DKktLow(nd, e.lag, f1), sl), e.kkt) /\ FLe(e.kkt, FAdd(DKktHigh(nd, e.lag, f1), sl)),
                 "P24", "KKT residual is not that of the iterate and multipliers")
OnKkt(e) ==
  LET c == CFG
      err == E(SameAsCur(e), "P17", "iterate changed outside the line search") \cup KktErr(e, c)
  IN R(DKkt(c, s, e.kkt), q, err)

TrialErr(c, e) ==
  LET a == c.alphas[s.ai]
      n == Hd.T
      xs == CurXs  us == CurUs
      allfin == ~ e.tthr /\ FIsFin(e.tc) /\ FLe(FAbs(e.tc), Big) /\ \A t \in 1..n : FLe(NormInf(e.nxt[t]), Big)
  IN E(FSame(e.a, a), "P24", "step lengths not tried in the given order")
     \cup (IF ~ e.ok THEN E(~ PolOn \/ ~ allfin, "P24", "a trial with finite values is refused")
           ELSE IF ~ PolOn \/ ~ VFinT(e.xs) \/ ~ VFinT(e.us) THEN {}
           ELSE E(\A t \in 1..(n + 1) : ~ (t = 1 \/ AllFin(e.nxt[IF t = 1 THEN 1 ELSE t - 1])) \/ XNear(e.xs[t], RollX(c, Hd.ang, D0.isf, B0.x0, P0, a, e.nxt, t)),
                  "P17", "rollout does not follow the dynamics")
             \cup E(\A t \in 1..n :
                      LET want == RollU(Hd.ang, xs, us, P0, a, e.xs[t], t)
                          sc == FAdd(FAdd(NormInf(us[t]), NormInf(P0.k[t])), FMul(Inf1(P0.K[t]), FAdd(NormInf(DiffX(Hd.ang, xs[t], e.xs[t])), FMax(NormInf(xs[t]), NormInf(e.xs[t])))))
                      IN VSmall(VSub(e.us[t], want), sc),
                    "P17", "rollout does not apply the policy")
             \cup E(Close(e.cost, e.tc, TOL) \/ ~ allfin, "P24", "cost of a trial is not that of the trial point")
             \cup E(c.kind = "DDP" \/ Close(e.gap, RollGap(c, D0.isf, P0, a), TOL), "P24", "gap norm of a trial is not that of the trial point")
             \cup E(Close(e.m, FSub(s.met[1], e.cost), TOL) \/ FLe(FAbs(FSub(e.m, FSub(s.met[1], e.cost))), FMul(TOL, FMax(FAbs(e.cost), FAbs(s.met[1])))), "P24", "cost decrease of a trial"))
\* comparisons that floating point cannot decide
NearTie(c, m, d) ==
  LET dv == FSub(s.met[1], m[1])
      ex == Expected2(d, c.alphas[s.ai])
      sc == FMax(1, FMaxSeq(<<FAbs(s.met[1]), FAbs(m[1]), FAbs(ex), FAbs(d[1]), FAbs(d[2])>>))
      near(x) == FLe(FAbs(x), FMul(FPow10(0 - 11), sc))
  IN IF c.kind = "FDDP" /\ c.filter THEN FALSE
     ELSE near(ex) \/ near(FSub(d[1], c.thgrad)) \/ near(FSub(dv, FMul(c.thacc, ex))) \/ near(FSub(dv, FMul(c.thneg, ex)))
OnTry(e) ==
  LET c == CFG
      m == <<e.cost, e.gap>>
      mod == NeedModel(e)
      ex == IF mod /\ i < Len(Hd.ev) /\ Ev(i + 1).e = "exp" THEN <<Ev(i + 1).d0, Ev(i + 1).d1>> ELSE s.d
      bad == e.tthr \/ ~ FIsFin(e.tc)
      pred == e.ok /\ ~ bad /\ DAcceptable(c, s, m, ex)
      obs == Kept(e, pred)
      acc == IF e.ok /\ ~ bad /\ NearTie(c, m, ex) THEN obs ELSE pred
      err == TrialErr(c, e)
        \cup (IF obs = acc THEN {}
              ELSE IF obs THEN IF ~ e.ok \/ bad THEN {<<"P24", "a trial with non-finite values is accepted">>}
                               ELSE {<<"P24", "an unacceptable trial is accepted">>}
              ELSE {<<"P24", "an acceptable trial is rejected">>})
      q1 == IF obs THEN [q EXCEPT !.cur = i, !.try = i, !.ex = mod, !.n.acc = @ + 1]
            ELSE [q EXCEPT !.try = i, !.ex = mod, !.n.rej = @ + 1, !.n.ref = @ + (IF e.ok THEN 0 ELSE 1)]
      q2 == [q1 EXCEPT !.n.roll = @ + (IF e.ok /\ PolOn THEN 1 ELSE 0)]
  IN IF s.ph # "ls" \/ s.ai > Len(c.alphas) THEN R(s, q1, {})
     ELSE R(IF obs THEN DTake(c, s, m) ELSE DRefuse(c, s), q2, err)

CbErr(c, e) ==
  E(e.id = s.cb, "P24", "callbacks not delivered once per iteration in order")
  \cup E(SameAsCur(e), "P17", "iterate changed outside the line search")
  \cup E(e.aiter = s.iter, "P24", "iteration number seen by a callback")
  \cup E(FSame(e.astep, s.step), "P24", "step length seen by a callback")
  \cup E(RegMatch(c, e.preg), "P24", "regularization seen by a callback")
  \cup (IF ~ PolOn THEN {}
        ELSE LET Qu == QuAll(D0.nd, P0)
                 stop == FSum([t \in 1..Len(Qu) |-> Dot(Qu[t], Qu[t])])
                 sc == FMaxSeq([t \in 1..Len(Qu) |-> FAdd(NormInf(Qu[t]), FMul(Inf1(D0.nd[t].Fu), NormInf(P0.vx[t + 1])))])
             IN E(FLe(FAbs(FSub(e.stop, stop)), FMul(FPow10(0 - 9), FMax(1, FMul(sc, sc)))), "P17", "stopping measure"))
OnCb(e) == IF s.ph # "cb" THEN R(s, q, {}) ELSE R(DCb(CFG, s), [q EXCEPT !.n.cb = @ + 1], CbErr(CFG, e))

OnEnd(e) ==
  LET c == CFG
      err ==
        E(Len(e.xs) = Hd.T + 1 /\ Len(e.us) = Hd.T, "P24", "result has the wrong length")
        \cup E(e.ret = 2 \/ SameAsCur(e), "P17", "result is not the last accepted iterate")
        \cup (IF s.ph # "done" THEN {}
              ELSE E(e.ret = s.ret, "P24", "result of solve does not reflect the last convergence check")
                   \cup E(e.iter = s.iter, "P24", "iteration count")
                   \cup E(e.ret = 2 \/ RegMatch(c, e.preg), "P24", "regularization")
                   \cup E(e.ret = 2 \/ e.isf = s.isf, "P24", "feasibility of the iterate"))
        \cup (IF e.ret # 1 \/ ~ HasNd(e) THEN {}
              ELSE IF ~ DerivFin(e.nd) THEN {<<"P24", "converged at a point with non-finite values">>}
              ELSE E(FLe(DKktLow(e.nd, e.lag, DiffX(Hd.ang, e.xs[1], B0.x0)), FAdd(c.tol, KSlack(e.nd, e.lag))), "P24", "returned point does not satisfy the KKT conditions to tolerance"))
      q1 == [q EXCEPT !.in = FALSE, !.n.conv = @ + (IF e.ret = 1 THEN 1 ELSE 0)]
  IN R([s EXCEPT !.ph = "idle"], q1, err)

React(e) ==
  CASE e.e = "begin" -> OnBegin(e)
    [] e.e = "dirb"  -> OnDirBegin(e)
    [] e.e = "dire"  -> OnDirEnd(e)
    [] e.e = "exp"   -> OnExp(e)
    [] e.e = "kkt"   -> OnKkt(e)
    [] e.e = "cb"    -> OnCb(e)
    [] e.e = "try"   -> OnTry(e)
    [] e.e = "end"   -> OnEnd(e)
    [] e.e = "hang"  -> R(s, q, {})

Report(err) ==
  \A x \in err : PrintT("@@V " \o ToJson([p |-> x[1], c |-> x[2], id |-> Hd.id, kind |-> Hd.kind, ev |-> i]))

Init == k \in 1..Len(Traces) /\ i = 1 /\ s = [ph |-> "idle"] /\ q = Q0
Next ==
  /\ i <= Meta[k]
  /\ LET e == Ev(i)
         r == React(e)
         err == r.err \cup FlowErr(e)
     IN /\ s' = r.s /\ q' = r.q
        /\ err # {} => Report(err)
  /\ i' = i + 1
  /\ k' = k
  /\ i = Meta[k] => PrintT("@@S " \o ToJson(q'.n))
Spec == Init /\ [][Next]_vars
=============================================================================
