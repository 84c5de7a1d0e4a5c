------------------------------ MODULE Machine -------------------------------
(***************************************************************************)
(* The outer loop shared by SolverSQP, SolverCSQP and SolverPROXQP, as a    *)
(* deterministic machine: a state record s and one transition function per *)
(* kind of input the environment (the model, the QP, the clock) can give.  *)
(*                                                                         *)
(* The same functions are used by                                          *)
(*   MCSolver.tla    - exhaustive checking over small integer domains,      *)
(*   SolverTrace.tla - checking executions recorded from the real solvers, *)
(*   Scripts.tla     - generating behaviours that are replayed in them.    *)
(*                                                                         *)
(* Configuration c: kind, maxit, tol, filter, fsize, muD, muC, lagc,        *)
(*   regmin, regmax, incf, decf, thdec, thinc, extra, rmreg, alphas, ncb.   *)
(* State s:                                                                *)
(*   ph    "dir" | "kkt" | "cb" | "ls" | "done"                            *)
(*   iter  index of the current outer iteration                            *)
(*   xt    TRUE in the extra iteration that only measures the KKT residual *)
(*   reg   regularization in force                                         *)
(*   hist  metrics of the iterates of this solve, oldest first             *)
(*   met   metrics of the current iterate     (<<cost, gap, viol>>)         *)
(*   mul   norm of the multipliers (merit function with automatic weights)  *)
(*   conv  the last KKT check passed                                       *)
(*   ai    index of the next step length to try                            *)
(*   step  last accepted step length (0 before any)                        *)
(*   cb    number of callbacks delivered in this iteration                 *)
(*   ret   result of solve(), when ph = "done"; why it ended in `why`        *)
(*   tmo   the time limit was hit                                          *)
(*   dp    "cur"/"try": the point the solver's model data describe          *)
(*   rc    the next direction must re-evaluate derivatives                 *)
(***************************************************************************)
EXTENDS OCP

\* --- regularization -------------------------------------------------------
RegFloor == FPow10(0 - 9)
RegUp(c, r) ==
  LET p == FMul(r, c.incf)
      q == IF FLe(p, 0) THEN FMax(c.regmin, RegFloor) ELSE p
  IN FMin(q, c.regmax)
RegDown(c, r) == FMax(FDiv(r, c.decf), c.regmin)
RegTop(c, r)  == FLe(c.regmax, r)
RegInit(c, reginit) ==
  IF c.rmreg THEN 0 ELSE IF FIsNaN(reginit) THEN c.regmin ELSE reginit

\* --- globalization --------------------------------------------------------
Fin3(m) == FIsFin(m[1]) /\ FIsFin(m[2]) /\ FIsFin(m[3])
Dominated(m, h) == FLe(h[1], m[1]) /\ FLe(h[2], m[2]) /\ FLe(h[3], m[3])
Window(c, hist) == LET n == IF Len(hist) < c.fsize THEN Len(hist) ELSE c.fsize
                   IN {Len(hist) - k : k \in 0..(n - 1)}
FilterOk(c, hist, m) == \A i \in Window(c, hist) : ~ Dominated(m, hist[i])
AutoWeight(c) == FLt(c.muD, 0) \/ FLt(c.muC, 0)
Merit(c, m, mul) ==
  IF c.kind = "CSQP" /\ AutoWeight(c)
  THEN FAdd(m[1], FMul(FMul(c.lagc, mul), FAdd(m[2], m[3])))
  ELSE IF c.kind = "SQP" THEN FAdd(m[1], FMul(c.muD, m[2]))
  ELSE FAdd(FAdd(m[1], FMul(c.muD, m[2])), FMul(c.muC, m[3]))
Acceptable(c, s, m) ==
  /\ Fin3(m)
  /\ IF c.filter THEN FilterOk(c, s.hist, m)
     ELSE FLt(Merit(c, m, s.mul), Merit(c, s.met, s.mul))

\* --- the machine ----------------------------------------------------------
Done(s, ret, why) == [s EXCEPT !.ph = "done", !.ret = ret, !.why = why]
\* loop head: another iteration, the extra one, or the end
Extra(c, s, why) ==
  IF c.extra /\ ~ s.tmo /\ c.kind # "PROXQP"
  THEN [s EXCEPT !.ph = "dir", !.xt = TRUE] ELSE Done(s, 0, why)
Enter(c, s, late) ==
  IF s.iter >= c.maxit THEN Extra(c, s, "maxit")
  ELSE IF late THEN Done([s EXCEPT !.tmo = TRUE], 0, "late")
  ELSE [s EXCEPT !.ph = "dir"]

Start(c, reginit, late) ==
  Enter(c, [ph |-> "dir", iter |-> 0, xt |-> FALSE, reg |-> RegInit(c, reginit),
            hist |-> <<>>, met |-> <<0, 0, 0>>, mul |-> 0, conv |-> FALSE, ai |-> 1,
            step |-> 0, cb |-> 0, ret |-> 0 - 1, why |-> "", tmo |-> FALSE, dp |-> "none", rc |-> TRUE],
        late)

\* the subproblem could not be solved: regularize more, or give up
DirFail(c, s) ==
  IF c.rmreg THEN Done(s, 2, "raise")     \* regularization is off: the error is the user's
  ELSE LET r == RegUp(c, s.reg) IN
       IF RegTop(c, r) THEN Done([s EXCEPT !.reg = r], 0, "regmax")
       ELSE [s EXCEPT !.reg = r]
\* m: metrics of the current iterate as reported by the solver
DirOk(c, s, m) == [s EXCEPT !.ph = "kkt", !.met = m, !.dp = "cur", !.rc = FALSE]
\* the QP was cut before its first iteration
DirLate(c, s, m) ==
  IF s.xt THEN [DirOk(c, s, m) EXCEPT !.tmo = TRUE] ELSE Done([s EXCEPT !.tmo = TRUE], 0, "late")
AfterCb(c, s) ==
  IF s.conv THEN Done(s, 1, "conv")
  ELSE IF s.xt THEN Done(s, 0, "maxit")
  ELSE [s EXCEPT !.ph = "ls", !.ai = 1, !.hist = Append(@, s.met)]
Kkt(c, s, k, mul) ==
  LET t == [s EXCEPT !.conv = FLe(k, c.tol), !.mul = mul, !.cb = 0, !.ph = "cb"]
  IN IF c.ncb = 0 THEN AfterCb(c, t) ELSE t
Callback(c, s) ==
  LET t == [s EXCEPT !.cb = @ + 1] IN IF t.cb = c.ncb THEN AfterCb(c, t) ELSE t

RegAfter(c, s, a) ==   \* <<regularization, give up>>
  IF c.rmreg THEN <<s.reg, FALSE>>
  ELSE LET r1 == IF FLt(c.thdec, a) THEN RegDown(c, s.reg) ELSE s.reg
       IN IF FLe(a, c.thinc) THEN LET r2 == RegUp(c, r1) IN <<r2, RegTop(c, r2)>>
          ELSE <<r1, FALSE>>
EndIter(c, s, a, late) ==
  LET r == RegAfter(c, s, a)
      t == [s EXCEPT !.reg = r[1]]
  IN IF r[2] THEN Done(t, 0, "regmax") ELSE Enter(c, [t EXCEPT !.iter = @ + 1], late)
Accept(c, s, m, late) ==
  EndIter(c, [s EXCEPT !.met = m, !.step = c.alphas[s.ai], !.dp = "cur", !.rc = TRUE],
          c.alphas[s.ai], late)
Reject(c, s, late) ==
  LET t == [s EXCEPT !.dp = "try", !.step = c.alphas[s.ai]] IN
  IF s.ai < Len(c.alphas) THEN [t EXCEPT !.ai = @ + 1]
  ELSE IF c.kind = "CSQP" THEN Extra(c, t, "stuck")      \* no progress possible: stop
  ELSE EndIter(c, t, c.alphas[s.ai], late)
\* a trial step: ok = FALSE if the model refused to evaluate it
Trial(c, s, ok, m, late) ==
  IF ok /\ Acceptable(c, s, m) THEN Accept(c, s, m, late) ELSE Reject(c, s, late)
=============================================================================
