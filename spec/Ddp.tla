-------------------------------- MODULE Ddp ---------------------------------
(***************************************************************************)
(* SolverDDP and SolverFDDP.                                                *)
(*                                                                         *)
(* Part 1: the outer loop as a deterministic machine (like Machine.tla).    *)
(* Part 2: the backward pass (policy and value function), the rollout and   *)
(*         the improvement model, as conditions on what was computed.       *)
(*                                                                         *)
(* Configuration c: kind, maxit, tol, filter, fsize, regmin, regmax, incf,  *)
(*   decf, thdec, thinc, thgrad, thacc, thneg, alphas, ncb (rmreg = FALSE). *)
(* State s:                                                                *)
(*   ph    "dir" | "exp" | "kkt" | "ls" | "cb" | "done"                    *)
(*   iter, reg, ai, step, cb, ret, why   as in Machine.tla                  *)
(*   isf   the iterate is considered dynamically feasible                   *)
(*   hist  <<cost, gap>> of the iterates of this solve (filter)             *)
(*   met   <<cost, gap>> of the current iterate                             *)
(*   d     the model of the improvement  (d1, d2)                           *)
(*   rc    the next direction re-evaluates the derivatives                  *)
(***************************************************************************)
EXTENDS Machine

FHalf == FDiv(1, 2)
IsFull(a) == FEq(a, 1)
\* a rollout that closes all gaps
Closes(c, isf, a) == c.kind = "DDP" \/ isf \/ IsFull(a)

\* ========================== 1. the outer loop ==============================
DFin(c, s, ret, why) == [s EXCEPT !.ph = "done", !.ret = ret, !.why = why]
DEnter(c, s) == IF s.iter >= c.maxit THEN DFin(c, s, 0, "maxit") ELSE [s EXCEPT !.ph = "dir"]
DStart(c, reginit, feas) ==
  DEnter(c, [ph |-> "dir", iter |-> 0, reg |-> RegInit(c, reginit), isf |-> feas, hist |-> <<>>, met |-> <<0, 0>>,
             d |-> <<0, 0>>, ai |-> 1, step |-> 0, cb |-> 0, ret |-> 0 - 1, why |-> "", rc |-> TRUE, conv |-> FALSE])
DDirFail(c, s) ==
  LET r == RegUp(c, s.reg) IN
  IF RegTop(c, r) THEN DFin(c, [s EXCEPT !.reg = r], 0, "regmax") ELSE [s EXCEPT !.reg = r]
DDirOk(c, s, m) == [s EXCEPT !.met = m, !.ph = IF c.kind = "DDP" THEN "exp" ELSE "kkt"]
DModel(c, s, d) == [s EXCEPT !.d = d, !.ph = "kkt"]
DKkt(c, s, k) ==
  IF FLe(k, c.tol) THEN DFin(c, [s EXCEPT !.conv = TRUE], 1, "conv")
  ELSE [s EXCEPT !.ph = "ls", !.ai = 1, !.hist = Append(@, s.met), !.rc = FALSE]

\* expected change of the cost with step length a
Expected2(d, a) == FMul(a, FAdd(d[1], FMul(FMul(FHalf, a), d[2])))
DWindow(c, hist) == LET n == IF Len(hist) < c.fsize THEN Len(hist) ELSE c.fsize IN {Len(hist) - j : j \in 0..(n - 1)}
DDominated(m, h) == FLe(h[1], m[1]) /\ FLe(h[2], m[2])
\* m = <<cost, gap>> of the trial, d = improvement model for it
DAcceptable(c, s, m, d) ==
  LET dv == FSub(s.met[1], m[1])
      ex == Expected2(d, c.alphas[s.ai])
  IN /\ FIsFin(m[1])
     /\ IF c.kind = "FDDP" /\ c.filter THEN \A j \in DWindow(c, s.hist) : ~ DDominated(m, s.hist[j])
        ELSE IF c.kind = "DDP"
        THEN FLe(0, ex) /\ (FLt(d[1], c.thgrad) \/ ~ s.isf \/ FLt(FMul(c.thacc, ex), dv))
        ELSE IF FLe(0, ex) THEN FLt(d[1], c.thgrad) \/ FLt(FMul(c.thacc, ex), dv)
        ELSE FLt(FMul(c.thneg, ex), dv)
DFeasAfter(c, s) ==
  IF c.kind = "DDP" THEN TRUE
  ELSE IF c.filter THEN FALSE
  ELSE s.isf \/ IsFull(c.alphas[s.ai])
DNextIter(c, s) == DEnter(c, [s EXCEPT !.iter = @ + 1])
DAfter(c, s) ==
  LET a == c.alphas[s.ai]
      r == RegAfter(c, s, a)
      t == [s EXCEPT !.reg = r[1], !.step = a, !.cb = 0]
  IN IF r[2] THEN DFin(c, t, 0, "regmax")
     ELSE IF c.ncb = 0 THEN DNextIter(c, t) ELSE [t EXCEPT !.ph = "cb"]
DTake(c, s, m) == DAfter(c, [s EXCEPT !.met = m, !.isf = DFeasAfter(c, s), !.rc = TRUE])
DRefuse(c, s) == IF s.ai < Len(c.alphas) THEN [s EXCEPT !.ai = @ + 1] ELSE DAfter(c, s)
DCb(c, s) == LET t == [s EXCEPT !.cb = @ + 1] IN IF t.cb = c.ncb THEN DNextIter(c, t) ELSE t

\* ===================== 2. policy, value function, rollout ===================
Tr(M, n) == [j \in 1..n |-> [i \in 1..Len(M) |-> M[i][j]]]
MatMul(A, B, n) == [i \in 1..Len(A) |-> MatTVec(B, A[i], n)]     \* n columns in B
MAdd(A, B) == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MSub(A, B) == [i \in 1..Len(A) |-> VSub(A[i], B[i])]
MDiag(A, r) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> IF i = j THEN FAdd(A[i][j], r) ELSE A[i][j]]]
MMax(A) == FMaxSeq([i \in 1..Len(A) |-> NormInf(A[i])])
MFin(A) == \A i \in 1..Len(A) : AllFin(A[i])

\* action-value function at stage t from the value function (V, v) of stage t+1
QxOf(n, v) == VAdd(n.Lx, MatTVec(n.Fx, v, Len(n.Lx)))
QuOf(n, v) == VAdd(n.Lu, MatTVec(n.Fu, v, Len(n.Lu)))
QxxOf(n, V) == LET nx == Len(n.Lx) IN MAdd(n.Lxx, MatMul(Tr(n.Fx, nx), MatMul(V, n.Fx, nx), nx))
QxuOf(n, V) == LET nx == Len(n.Lx) IN MAdd(n.Lxu, MatMul(Tr(n.Fx, nx), MatMul(V, n.Fu, Len(n.Lu)), Len(n.Lu)))
QuuOf(n, V, dreg) == LET nu == Len(n.Lu) IN MDiag(MAdd(n.Luu, MatMul(Tr(n.Fu, nu), MatMul(V, n.Fu, nu), nu)), dreg)

Small(M, scale) == FLe(MMax(M), FMul(FPow10(0 - 8), FMax(1, scale)))
VSmall(v, scale) == FLe(NormInf(v), FMul(FPow10(0 - 8), FMax(1, scale)))
Inf1(M) == FMul(Len(M) + 1, MMax(M))       \* bounds the size of products with M
NodeMag(n, V) == FMul(FMul(Inf1(n.Fx), FMax(1, Inf1(n.Fx))), Inf1(V))
NodeMagU(n, V) == FMul(FMul(FMax(Inf1(n.Fx), Inf1(n.Fu)), FMax(1, Inf1(n.Fu))), Inf1(V))

\* terminal value function: names of the clauses that fail
TermErr(n, V, v, preg, fs, isf) ==
  LET W == MDiag(n.Lxx, preg)
      w == IF isf THEN n.Lx ELSE VAdd(n.Lx, MatVec(W, fs))
      cs == {"terminal value function"}
  IN IF Small(MSub(V, W), MMax(W)) /\ VSmall(VSub(v, w), FAdd(NormInf(w), FMul(Inf1(W), NormInf(fs)))) THEN {} ELSE cs
\* stage value function and policy; Vp, vp belong to the next stage
StageErr(n, V, v, K, k, Vp, vp, preg, dreg, fs, isf) ==
  LET nx == Len(n.Lx)  nu == Len(n.Lu)
      Quu == QuuOf(n, Vp, dreg)  Qxu == QxuOf(n, Vp)  Qu == QuOf(n, vp)
      KT == Tr(K, nx)                                   \* nx rows of nu
      M == MSub(QxxOf(n, Vp), IF nu = 0 THEN [i \in 1..nx |-> VZero(nx)] ELSE MatMul(Qxu, K, nx))
      \* the exact value function is symmetric
      W == MDiag([i \in 1..nx |-> [j \in 1..nx |-> FMul(FHalf, FAdd(M[i][j], M[j][i]))]], preg)
      w0 == VSub(QxOf(n, vp), IF nu = 0 THEN VZero(nx) ELSE MatTVec(K, Qu, nx))
      w == IF isf THEN w0 ELSE VAdd(w0, MatVec(W, fs))
      big == FAdd(NodeMag(n, Vp), FMul(Inf1(Qxu), Inf1(K)))
      bigv == FAdd(FAdd(FMul(Inf1(n.Fx), FMax(1, NormInf(vp))), FMul(Inf1(K), NormInf(Qu))), FMul(Inf1(W), NormInf(fs)))
      pu == FAdd(NodeMagU(n, Vp), FMul(Inf1(Quu), Inf1(K)))
      pk == FAdd(FMul(Inf1(Quu), NormInf(k)), FMul(Inf1(n.Fu), FMax(1, NormInf(vp))))
  IN (IF nu = 0 \/ VSmall(VSub(MatVec(Quu, k), Qu), pk) THEN {} ELSE {"feedforward"})
     \cup (IF nu = 0 \/ Small(MSub(MatMul(Quu, K, nx), Tr(Qxu, nu)), pu) THEN {} ELSE {"feedback gain"})
     \cup (IF Small(MSub(V, W), big) THEN {} ELSE {"value function Hessian"})
     \cup (IF VSmall(VSub(v, w), bigv) THEN {} ELSE {"value function gradient"})
PolicyErr(nd, e, preg, dreg, isf) ==
  LET T == Tt(nd) IN
  UNION {StageErr(nd[t], e.vxx[t], e.vx[t], e.K[t], e.k[t], e.vxx[t + 1], e.vx[t + 1], preg, dreg, e.fs[t], isf) : t \in 1..T}
  \cup TermErr(nd[T + 1], e.vxx[T + 1], e.vx[T + 1], preg, e.fs[T + 1], isf)
PolicyFin(e) == /\ \A t \in 1..Len(e.vx) : AllFin(e.vx[t]) /\ MFin(e.vxx[t]) /\ AllFin(e.fs[t])
                /\ \A t \in 1..Len(e.k) : AllFin(e.k[t]) /\ MFin(e.K[t])

\* gaps: gp[1] = x0 (-) x_1, gp[t+1] = f_t (-) x_{t+1}
Gaps(nd, ang, xs, x0) == <<DiffX(ang, xs[1], x0)>> \o [t \in 1..Tt(nd) |-> nd[t].f]

\* improvement model
QuAll(nd, e) == [t \in 1..Tt(nd) |-> QuOf(nd[t], e.vx[t + 1])]
QukAll(nd, e, dreg) == [t \in 1..Tt(nd) |-> MatVec(QuuOf(nd[t], e.vxx[t + 1], dreg), e.k[t])]
Dots(a, b) == FSum([t \in 1..Len(a) |-> Dot(a[t], b[t])])
DdpModel(nd, e, dreg) == <<Dots(QuAll(nd, e), e.k), FNeg(Dots(QukAll(nd, e, dreg), e.k))>>
FddpModel(nd, e, dreg, isf, dxs) ==   \* dxs[t] = xs (-) trial
  LET m == DdpModel(nd, e, dreg)
      on(v) == IF isf THEN 0 ELSE v
      Vf == [t \in 1..Len(e.fs) |-> MatVec(e.vxx[t], e.fs[t])]
      dg == FSub(m[1], on(Dots(e.vx, e.fs)))
      dq == FAdd(on(Dots(Vf, e.fs)), m[2])
      dv == FNeg(on(Dots(Vf, dxs)))
  IN <<FAdd(dg, dv), FSub(dq, FMul(2, dv))>>
ModelScale(nd, e, dreg, dxs) ==
  LET Qu == QuAll(nd, e)  Qk == QukAll(nd, e, dreg)  dim == Nx(nd) + 4 IN
  FMul(dim, FMaxSeq([t \in 1..Tt(nd) |-> FMul(FAdd(FMul(Inf1(nd[t].Fu), FMax(1, NormInf(e.vx[t + 1]))), FAdd(NormInf(Qu[t]), NormInf(Qk[t]))), NormInf(e.k[t]))]
          \o [t \in 1..Len(e.fs) |-> FMul(NormInf(e.fs[t]), FMul(Len(e.fs[t]), FAdd(NormInf(e.vx[t]),
                FMul(Inf1(e.vxx[t]), FAdd(NormInf(e.fs[t]), NormInf(dxs[t]))))))]))

\* rollout with step length a of the policy (k, K) around (xs, us)
\* nxt[t]: where the dynamics lead from stage t of the trial
RollX(c, ang, isf, x0, e, a, nxt, t) ==
  LET x == IF t = 1 THEN x0 ELSE nxt[t - 1] IN
  IF Closes(c, isf, a) THEN x
  ELSE Retract(ang, x, VScale(FSub(a, 1), e.fs[t]))
RollU(ang, xs, us, e, a, tx, t) ==
  VSub(VSub(us[t], VScale(a, e.k[t])), MatVec(e.K[t], DiffX(ang, xs[t], tx)))
RollGap(c, isf, e, a) ==   \* the gaps that a trial leaves open
  IF Closes(c, isf, a) THEN 0
  ELSE FMul(FSub(1, a), FSum([t \in 1..Len(e.fs) |-> Norm1(e.fs[t])]))

\* optimality residual with the gap of the initial state
DKktLow(nd, lam, f1) == FMax(KktResidual(nd, lam, <<>>), NormInf(f1))
DKktHigh(nd, lam, f1) == FMax(KktResidualFull(nd, lam, <<>>), NormInf(f1))
=============================================================================
