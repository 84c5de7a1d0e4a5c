-------------------------------- MODULE OCP ---------------------------------
(***************************************************************************)
(* The discrete-time optimal control problem and its local models.          *)
(*                                                                         *)
(*   min  sum_t l_t(x_t,u_t) + l_T(x_T)                                     *)
(*   s.t. x_{t+1} = f_t(x_t,u_t), x_0 given,  lb_t <= g_t(x_t,u_t) <= ub_t  *)
(*                                                                         *)
(* A trajectory point is described by its list of nodes nd[1..T+1]:         *)
(* nd[t] has Lx,Lxx,g,Gx,lb,ub,c and, for t <= T, f (the gap                *)
(* f_t(x_t,u_t) (-) x_{t+1}), Lu,Luu,Lxu,Fx,Fu,Gu.                          *)
(* Indices are shifted by one with respect to the paper: nd[1] is t = 0.    *)
(***************************************************************************)
EXTENDS LinAlg

Nx(nd) == Len(nd[1].Lx)
Tt(nd) == Len(nd) - 1
Nu(n)  == Len(n.Lu)

\* --- values of the trajectory point --------------------------------------
CostOf(nd) == FSum([t \in 1..Len(nd) |-> nd[t].c])
GapOf(nd)  == FSum([t \in 1..Tt(nd) |-> Norm1(nd[t].f)])
GapInf(nd) == FMaxSeq([t \in 1..Tt(nd) |-> NormInf(nd[t].f)])
ViolNode(n) ==
  FAdd(Norm1(VMax(VSub(n.lb, n.g), VZero(Len(n.g)))),
       Norm1(VMax(VSub(n.g, n.ub), VZero(Len(n.g)))))
ViolOf(nd) == FSum([t \in 1..Len(nd) |-> ViolNode(nd[t])])

\* --- first-order optimality ----------------------------------------------
\* lam[1..T+1]: multipliers of the dynamics; y[1..T+1]: of the constraints
\* (y = <<>> for an unconstrained solver).
GxTy(nd, y, t) == IF Len(y) = 0 THEN VZero(Nx(nd)) ELSE MatTVec(nd[t].Gx, y[t], Nx(nd))
GuTy(nd, y, t) == IF Len(y) = 0 THEN VZero(Nu(nd[t])) ELSE MatTVec(nd[t].Gu, y[t], Nu(nd[t]))
StatX(nd, lam, y, t) ==
  IF t = Len(nd)
  THEN VAdd(VSub(nd[t].Lx, lam[t]), GxTy(nd, y, t))
  ELSE VAdd(VSub(VAdd(nd[t].Lx, MatTVec(nd[t].Fx, lam[t + 1], Nx(nd))), lam[t]), GxTy(nd, y, t))
\* at t = 0 the state is not a variable: constraint gradient w.r.t. x_0 dropped
StatX0(nd, lam) ==
  VSub(VAdd(nd[1].Lx, MatTVec(nd[1].Fx, lam[2], Nx(nd))), lam[1])
StatU(nd, lam, y, t) ==
  VAdd(VAdd(nd[t].Lu, MatTVec(nd[t].Fu, lam[t + 1], Nu(nd[t]))), GuTy(nd, y, t))
\* the residual that matters for optimality: all free variables
StatNorm(nd, lam, y) ==
  FMax(FMaxSeq([t \in 1..Tt(nd) |-> NormInf(StatX(nd, lam, y, t + 1))]),
       FMaxSeq([t \in 1..Tt(nd) |-> NormInf(StatU(nd, lam, y, t))]))
KktResidual(nd, lam, y) ==
  FMax(FMax(StatNorm(nd, lam, y), GapInf(nd)), ViolOf(nd))
\* the same including the (inessential) equation of the fixed initial state
KktResidualFull(nd, lam, y) ==
  FMax(KktResidual(nd, lam, y), NormInf(StatX0(nd, lam)))

\* --- the regularised local LQ model --------------------------------------
\* Stationarity of (dx,du) for
\*   min sum 1/2 dx'Lxx dx + dx'Lxu du + 1/2 du'Luu du + Lx'dx + Lu'du
\*       + preg/2 |dx_t|^2 (t>=1) + dreg/2 |du_t|^2 + extra(dx,du)
\*   s.t. dx_{t+1} = Fx dx_t + Fu du_t + f_t, dx_0 = 0
\* ex[t], eu[t]: gradient of the extra term (augmented Lagrangian, proximal).
RECURSIVE Costate(_, _, _, _, _, _)
Costate(nd, dx, du, preg, ex, t) ==   \* sequence lam[t..T+1]
  LET n == nd[t]
      base == VAdd(VAdd(VAdd(n.Lx, MatVec(n.Lxx, dx[t])), VScale(preg, dx[t])), ex[t])
  IN IF t = Len(nd) THEN <<base>>
     ELSE LET rest == Costate(nd, dx, du, preg, ex, t + 1)
          IN <<VAdd(VAdd(base, MatVec(n.Lxu, du[t])), MatTVec(n.Fx, rest[1], Nx(nd)))>> \o rest
LqStatU(nd, dx, du, dreg, eu, lam, t) ==
  LET n == nd[t] IN
  VAdd(VAdd(VAdd(VAdd(VAdd(n.Lu, MatVec(n.Luu, du[t])), MatTVec(n.Lxu, dx[t], Nu(n))),
       VScale(dreg, du[t])), eu[t]), MatTVec(n.Fu, lam[t + 1], Nu(n)))
LqScale(nd, dx, du, preg, dreg, lam, eu) ==  \* magnitude of the summands
  FMax(1, FMaxSeq([t \in 1..Tt(nd) |->
     LET n == nd[t] IN
     FMaxSeq(<<NormInf(n.Lu), NormInf(MatVec(n.Luu, du[t])), NormInf(MatTVec(n.Lxu, dx[t], Nu(n))),
               FMul(dreg, NormInf(du[t])), NormInf(eu[t]), NormInf(lam[t + 1]),
               NormInf(dx[t + 1]), FMul(preg, NormInf(dx[t + 1])),
               NormInf(MatTVec(n.Fu, lam[t + 1], Nu(n)))>>)]))
LqDynErr(nd, dx, du) ==
  FMax(NormInf(dx[1]),
       FMaxSeq([t \in 1..Tt(nd) |->
         NormInf(VSub(dx[t + 1], VAdd(VAdd(MatVec(nd[t].Fx, dx[t]), MatVec(nd[t].Fu, du[t])), nd[t].f)))]))
LqResidual(nd, dx, du, preg, dreg, ex, eu) ==   \* relative
  LET lam == Costate(nd, dx, du, preg, ex, 1)
      sc  == LqScale(nd, dx, du, preg, dreg, lam, eu)
      r   == FMax(LqDynErr(nd, dx, du),
                  FMaxSeq([t \in 1..Tt(nd) |-> NormInf(LqStatU(nd, dx, du, dreg, eu, lam, t))]))
  IN FDiv(r, sc)
ZeroX(nd) == [t \in 1..Len(nd) |-> VZero(Nx(nd))]
ZeroU(nd) == [t \in 1..Tt(nd) |-> VZero(Nu(nd[t]))]

\* --- the local quadratic program with constraints --------------------------
\*   min  sum 1/2 (dx,du)'H(dx,du) + Lx'dx + Lu'du
\*   s.t. dx_{t+1} = Fx dx_t + Fu du_t + f_t, dx_0 = 0, lb - g <= Gx dx + Gu du <= ub - g
\* with multipliers lam (dynamics) and y (constraints, positive at upper bounds)
QpStatX(nd, dx, du, lam, y, t) ==       \* t >= 2: the initial state is fixed
  LET n == nd[t]
      a == VSub(VAdd(VAdd(n.Lx, MatVec(n.Lxx, dx[t])), GxTy(nd, y, t)), lam[t])
  IN IF t = Len(nd) THEN a ELSE VAdd(VAdd(a, MatVec(n.Lxu, du[t])), MatTVec(n.Fx, lam[t + 1], Nx(nd)))
QpStatU(nd, dx, du, lam, y, t) ==
  LET n == nd[t] IN
  VAdd(VAdd(VAdd(VAdd(n.Lu, MatVec(n.Luu, du[t])), MatTVec(n.Lxu, dx[t], Nu(n))),
       MatTVec(n.Fu, lam[t + 1], Nu(n))), GuTy(nd, y, t))
QpRow(nd, dx, du, t) ==                 \* linearised constraint values
  LET a == VAdd(nd[t].g, MatVec(nd[t].Gx, dx[t]))
  IN IF t = Len(nd) THEN a ELSE VAdd(a, MatVec(nd[t].Gu, du[t]))
QpViol(nd, dx, du, t) ==
  LET r == QpRow(nd, dx, du, t)  z == VZero(Len(r))
  IN FMax(NormInf(VMax(VSub(nd[t].lb, r), z)), NormInf(VMax(VSub(r, nd[t].ub), z)))
QpCompl(nd, dx, du, y, t) ==            \* a multiplier acts only at its bound
  LET r == QpRow(nd, dx, du, t)  z == VZero(Len(r))
  IN FMax(NormInf(VMin(VMax(y[t], z), VAbs(VSub(nd[t].ub, r)))),
          NormInf(VMin(VMax(VSub(z, y[t]), z), VAbs(VSub(r, nd[t].lb)))))
QpScale(nd, dx, du, lam, y) ==
  FMax(1, FMaxSeq([t \in 1..Tt(nd) |->
     LET n == nd[t]  m == nd[t + 1] IN
     FMaxSeq(<<NormInf(n.Lu), NormInf(m.Lx), NormInf(MatVec(n.Luu, du[t])), NormInf(MatTVec(n.Lxu, dx[t], Nu(n))),
               NormInf(MatVec(m.Lxx, dx[t + 1])), NormInf(MatTVec(n.Fu, lam[t + 1], Nu(n))), NormInf(lam[t + 1]),
               NormInf(dx[t + 1]), NormInf(GuTy(nd, y, t)), NormInf(GxTy(nd, y, t + 1)), NormInf(n.g), NormInf(n.f)>>)]))
QpStatNorm(nd, dx, du, lam, y) ==
  FMax(FMaxSeq([t \in 1..Tt(nd) |-> NormInf(QpStatX(nd, dx, du, lam, y, t + 1))]),
       FMaxSeq([t \in 1..Tt(nd) |-> NormInf(QpStatU(nd, dx, du, lam, y, t))]))
QpFeasNorm(nd, dx, du) == FMax(LqDynErr(nd, dx, du), FMaxSeq([t \in 1..Len(nd) |-> QpViol(nd, dx, du, t)]))
QpComplNorm(nd, dx, du, y) == FMaxSeq([t \in 1..Len(nd) |-> QpCompl(nd, dx, du, y, t)])

\* --- states: R^n with some angle coordinates -----------------------------
TwoPi == FMul(2, FDiv(FMul("400921fb54442d18", 1), 1))
Wrap(v) == FSub(v, FMul(TwoPi, FFloor(FDiv(FAdd(v, "400921fb54442d18"), TwoPi))))
Retract(ang, x, dx) ==
  [i \in 1..Len(x) |-> IF ang[i] THEN Wrap(FAdd(x[i], dx[i])) ELSE FAdd(x[i], dx[i])]
DiffX(ang, a, b) ==
  [i \in 1..Len(a) |-> IF ang[i] THEN Wrap(FSub(b[i], a[i])) ELSE FSub(b[i], a[i])]

\* --- finiteness of the local model ---------------------------------------
NodeFin(n, last) ==
  /\ AllFin(n.Lx) /\ \A i \in 1..Len(n.Lxx) : AllFin(n.Lxx[i])
  /\ last \/ (AllFin(n.f) /\ AllFin(n.Lu))
\* everything the first-order conditions depend on
DerivFin(nd) == \A t \in 1..Len(nd) : NodeFin(nd[t], t = Len(nd)) /\ AllFin(nd[t].g)
PointFin(nd) == DerivFin(nd) /\ \A t \in 1..Len(nd) : FIsFin(nd[t].c)

Close(a, b, tol) ==  \* a = b up to a relative error
  \/ FSame(a, b)
  \/ FLe(FAbs(FSub(a, b)), FMul(tol, FMax(1, FMax(FAbs(a), FAbs(b)))))
VClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], tol)
TClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VClose(a[i], b[i], tol)
VSame(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FSame(a[i], b[i])
TSame(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VSame(a[i], b[i])
=============================================================================
