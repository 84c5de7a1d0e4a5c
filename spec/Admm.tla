------------------------------- MODULE Admm ---------------------------------
(***************************************************************************)
(* The operator-splitting QP loop inside SolverCSQP::computeDirection.      *)
(*                                                                         *)
(*   min   1/2 w'Hw + q'w    s.t. linearised dynamics,                      *)
(*         lb_t - g_t <= Gx_t dx_t + Gu_t du_t <= ub_t - g_t                 *)
(*                                                                         *)
(* ADMM state: (dx,du) previous iterate, z slack, y dual, rho sparse scalar.*)
(* c: maxqp, rhoint, rhotol, alpha, sigma, epsa, epsr, rho0, rhomin, rhomax,*)
(*    resety, resetrho, eqinit, heur                                        *)
(***************************************************************************)
EXTENDS OCP

\* --- penalty per constraint row -------------------------------------------
Free(lo, hi)  == FEq(lo, FNeg(FInf)) /\ FEq(hi, FInf)
IsEq(lo, hi)  == FLe(FAbs(FSub(lo, hi)), FDiv(1, 1000000))
RhoRow(c, r, lo, hi) ==
  IF Free(lo, hi) THEN c.rhomin ELSE IF IsEq(lo, hi) THEN FMul(1000, r) ELSE r
RhoVec(c, r, nd) ==
  [t \in 1..Len(nd) |-> [k \in 1..Len(nd[t].g) |-> RhoRow(c, r, nd[t].lb[k], nd[t].ub[k])]]
\* rows with lb > ub have no meaning; their penalty is left unspecified
BoundsOk(nd) == \A t \in 1..Len(nd) : \A k \in 1..Len(nd[t].g) : FLe(nd[t].lb[k], nd[t].ub[k])

\* --- x-step ----------------------------------------------------------------
GwRow(nd, dx, du, t) ==
  IF t = Len(nd) THEN MatVec(nd[t].Gx, dx[t])
  ELSE VAdd(MatVec(nd[t].Gx, dx[t]), MatVec(nd[t].Gu, du[t]))
\* y + rho (G w - z): the gradient multiplier of the augmented term
AugMul(nd, dx, du, y, z, rho, t) ==
  VAdd(y[t], VMul(rho[t], VSub(GwRow(nd, dx, du, t), z[t])))
ExtraX(nd, sigma, dxt, dut, dx, y, z, rho) ==
  [t \in 1..Len(nd) |->
     VAdd(VScale(sigma, VSub(dxt[t], dx[t])),
          MatTVec(nd[t].Gx, AugMul(nd, dxt, dut, y, z, rho, t), Nx(nd)))]
ExtraU(nd, sigma, dxt, dut, du, y, z, rho) ==
  [t \in 1..Tt(nd) |->
     VAdd(VScale(sigma, VSub(dut[t], du[t])),
          MatTVec(nd[t].Gu, AugMul(nd, dxt, dut, y, z, rho, t), Nu(nd[t])))]
XStepResidual(nd, sigma, preg, dreg, dxt, dut, dx, du, y, z, rho) ==
  LqResidual(nd, dxt, dut, preg, dreg,
             ExtraX(nd, sigma, dxt, dut, dx, y, z, rho),
             ExtraU(nd, sigma, dxt, dut, du, y, z, rho))

\* --- z- and y-step ----------------------------------------------------------
Relaxed(c, nd, dxt, dut, z, t) ==
  VAdd(VScale(c.alpha, GwRow(nd, dxt, dut, t)), VScale(FSub(1, c.alpha), z[t]))
ZNew(c, nd, dxt, dut, y, z, rho, t) ==
  VMin(VMax(VAdd(Relaxed(c, nd, dxt, dut, z, t), VDiv(y[t], rho[t])), VSub(nd[t].lb, nd[t].g)),
       VSub(nd[t].ub, nd[t].g))
YNew(c, nd, dxt, dut, y, z, rho, zn, t) ==
  VAdd(y[t], VMul(rho[t], VSub(Relaxed(c, nd, dxt, dut, z, t), zn)))

\* --- residuals and tolerances ------------------------------------------------
NegInf == FNeg(FInf)
MaxOver(f, nd) ==   \* max of f over the constrained nodes, -inf if there are none
  LET RECURSIVE m(_)
      m(t) == IF t = 0 THEN NegInf
              ELSE IF Len(nd[t].g) = 0 THEN m(t - 1) ELSE FMax(m(t - 1), f[t])
  IN m(Len(nd))
Primal(nd, dxt, dut, zn) ==
  MaxOver([t \in 1..Len(nd) |-> NormInf(VSub(GwRow(nd, dxt, dut, t), zn[t]))], nd)
PrimalRel(nd, dxt, dut, zn) ==
  MaxOver([t \in 1..Len(nd) |-> FMax(NormInf(GwRow(nd, dxt, dut, t)), NormInf(zn[t]))], nd)
GtNorm(nd, v, t) ==
  IF t = Len(nd) THEN NormInf(MatTVec(nd[t].Gx, v, Nx(nd)))
  ELSE FMax(NormInf(MatTVec(nd[t].Gx, v, Nx(nd))), NormInf(MatTVec(nd[t].Gu, v, Nu(nd[t]))))
Dual(c, nd, zn, z, rho) ==
  MaxOver([t \in 1..Len(nd) |->
     LET v == VMul(rho[t], VSub(zn[t], z[t]))
     IN IF c.heur THEN NormInf(v) ELSE GtNorm(nd, v, t)], nd)
DualRel(c, nd, yn) ==
  MaxOver([t \in 1..Len(nd) |-> IF c.heur THEN NormInf(yn[t]) ELSE GtNorm(nd, yn[t], t)], nd)
Tolerance(c, rel) == IF FLe(FAbs(c.epsr), FPow10(0 - 16)) THEN c.epsa
                     ELSE FAdd(c.epsa, FMul(c.epsr, rel))
\* --- penalty adaptation ------------------------------------------------------
RhoEstimate(c, r, p, prel, d, drel) ==
  FMin(FMax(FMul(FSqrt(FDiv(FMul(p, drel), FMul(d, prel))), r), c.rhomin), c.rhomax)
RhoNext(c, r, est) ==
  IF FLt(FMul(r, c.rhotol), est) \/ FLt(est, FDiv(r, c.rhotol)) THEN est ELSE r

\* --- the protocol -------------------------------------------------------------
CheckAt(c, n)    == n % c.rhoint = 0
RefactorAt(c, n) == n = 1 \/ n % c.rhoint = 1 \/ c.rhoint = 1
=============================================================================
