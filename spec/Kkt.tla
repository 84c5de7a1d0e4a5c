-------------------------------- MODULE Kkt ---------------------------------
(***************************************************************************)
(* SolverKKT: Newton's method on the whole trajectory, with one dense linear *)
(* system for the step and the multipliers.                                 *)
(*                                                                         *)
(* Part 1: the loop as a deterministic machine (conventions of Machine.tla).*)
(* Part 2: the system.                                                      *)
(*                                                                         *)
(* Configuration c: maxit, tol, thacc, thgrad, thstop, alphas, ncb.         *)
(* State s: ph "dir" | "exp" | "ls" | "stop" | "cb" | "done"; iter, ai, met,  *)
(*   step, cb, ret, why as elsewhere;                                       *)
(*   isf  the iterate is taken to be feasible                               *)
(*   was  the last accepted step started from such an iterate               *)
(*   kkt, stop  the two optimality measures (both of the iterate at which   *)
(*        the direction was computed);  d  the model of the improvement      *)
(***************************************************************************)
EXTENDS Ddp

KFin(s, ret, why) == [s EXCEPT !.ph = "done", !.ret = ret, !.why = why]
KEnter(c, s) == IF s.iter >= c.maxit THEN KFin(s, 0, "maxit") ELSE [s EXCEPT !.ph = "dir"]
KStart(c, feas) ==
  KEnter(c, [ph |-> "dir", iter |-> 0, isf |-> feas, was |-> FALSE, met |-> 0, d |-> <<0, 0>>, kkt |-> 1, stop |-> 1,
             ai |-> 1, step |-> 0, cb |-> 0, ret |-> 0 - 1, why |-> ""])
KDirFail(s) == KFin(s, 0, "refused")
KDirOk(s, cost, kkt) == [s EXCEPT !.ph = "exp", !.met = cost, !.kkt = kkt]
KModel(c, s, d) ==
  IF FLe(s.kkt, c.tol) THEN KFin([s EXCEPT !.d = d], 1, "conv")
  ELSE [s EXCEPT !.d = d, !.ph = "ls", !.ai = 1]
KAcceptable(c, s, m) ==
  /\ FIsFin(m)
  /\ \/ FLt(s.d[1], c.thgrad)
     \/ ~ s.isf
     \/ FLt(FMul(c.thacc, Expected2(s.d, c.alphas[s.ai])), FSub(s.met, m))
KTake(c, s, m) == [s EXCEPT !.ph = "stop", !.was = s.isf, !.isf = TRUE, !.met = m, !.step = c.alphas[s.ai]]
KRefuse(c, s) == IF s.ai < Len(c.alphas) THEN [s EXCEPT !.ai = @ + 1] ELSE [s EXCEPT !.ph = "stop", !.step = c.alphas[s.ai]]
KNext(c, s) ==
  IF s.was /\ FLt(s.stop, c.thstop) THEN KFin(s, 1, "stop") ELSE KEnter(c, [s EXCEPT !.iter = @ + 1])
KStop(c, s, v) == LET t == [s EXCEPT !.stop = v, !.cb = 0] IN IF c.ncb = 0 THEN KNext(c, t) ELSE [t EXCEPT !.ph = "cb"]
KCb(c, s) == LET t == [s EXCEPT !.cb = @ + 1] IN IF t.cb = c.ncb THEN KNext(c, t) ELSE t

\* =============================== 2. the system ===============================
\* lam: multipliers of the dynamics with the sign of OCP.tla
KStat(nd, dx, du, lam) ==      \* all states are variables, the first one too
  FMax(FMaxSeq([t \in 1..Len(nd) |-> NormInf(QpStatX(nd, dx, du, lam, <<>>, t))]),
       FMaxSeq([t \in 1..Tt(nd) |-> NormInf(QpStatU(nd, dx, du, lam, <<>>, t))]))
KDyn(nd, dx, du, gap0) ==
  FMax(NormInf(VSub(dx[1], gap0)),
       FMaxSeq([t \in 1..Tt(nd) |->
         NormInf(VSub(dx[t + 1], VAdd(VAdd(MatVec(nd[t].Fx, dx[t]), MatVec(nd[t].Fu, du[t])), nd[t].f)))]))
KScale(nd, dx, du, lam) ==
  LET n == Nx(nd) + 3 IN
  FMul(n, FMax(1, FMaxSeq([t \in 1..Len(nd) |-> FMaxSeq(<<NormInf(nd[t].Lx), FMul(Inf1(nd[t].Lxx), NormInf(dx[t])), NormInf(lam[t]), NormInf(dx[t])>>)]
    \o [t \in 1..Tt(nd) |-> FMaxSeq(<<NormInf(nd[t].Lu), NormInf(nd[t].f), FMul(Inf1(nd[t].Luu), NormInf(du[t])), FMul(Inf1(nd[t].Lxu), FMax(NormInf(du[t]), NormInf(dx[t]))),
          FMul(Inf1(nd[t].Fx), FMax(NormInf(lam[t + 1]), NormInf(dx[t]))), FMul(Inf1(nd[t].Fu), FMax(NormInf(lam[t + 1]), NormInf(du[t])))>>)])))
\* improvement model: minus the slope and the curvature of the cost along the step
KModelOf(nd, dx, du) ==
  LET g == FAdd(FSum([t \in 1..Len(nd) |-> Dot(nd[t].Lx, dx[t])]), FSum([t \in 1..Tt(nd) |-> Dot(nd[t].Lu, du[t])]))
      h == FAdd(FSum([t \in 1..Len(nd) |-> Dot(dx[t], MatVec(nd[t].Lxx, dx[t]))]),
                FSum([t \in 1..Tt(nd) |-> FAdd(Dot(du[t], MatVec(nd[t].Luu, du[t])), FMul(2, Dot(dx[t], MatVec(nd[t].Lxu, du[t]))))]))
  IN <<FNeg(g), FNeg(h)>>
KModelScale(nd, dx, du) ==
  LET n == Nx(nd) + 4 IN
  FMul(FMul(n, Len(nd)), FMaxSeq([t \in 1..Len(nd) |-> FMul(NormInf(dx[t]), FAdd(NormInf(nd[t].Lx), FMul(Inf1(nd[t].Lxx), NormInf(dx[t]))))]
    \o [t \in 1..Tt(nd) |-> FMul(NormInf(du[t]), FAdd(NormInf(nd[t].Lu), FAdd(FMul(Inf1(nd[t].Luu), NormInf(du[t])), FMul(Inf1(nd[t].Lxu), NormInf(dx[t])))))]))
\* the sum of the squares of the first-order conditions
KSq(v) == Dot(v, v)
KStopOf(nd, lam, gap0) ==
  LET zx == ZeroX(nd)  zu == ZeroU(nd) IN
  FAdd(FAdd(FSum([t \in 1..Len(nd) |-> KSq(QpStatX(nd, zx, zu, lam, <<>>, t))]),
            FSum([t \in 1..Tt(nd) |-> KSq(QpStatU(nd, zx, zu, lam, <<>>, t))])),
       FAdd(KSq(gap0), FSum([t \in 1..Tt(nd) |-> KSq(nd[t].f)])))
=============================================================================
