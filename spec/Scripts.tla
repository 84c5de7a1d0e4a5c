------------------------------ MODULE Scripts -------------------------------
(***************************************************************************)
(* Behaviours of Machine.tla as test cases for the real solvers.            *)
(*                                                                         *)
(* TLC in simulation mode walks through the machine; every choice of the    *)
(* environment (what the model reports at a new point) is drawn from small  *)
(* exact domains, so that ties in cost, gap, violation, merit, residual =   *)
(* tolerance, step = threshold and regularization = limit are frequent.     *)
(* At the end of a behaviour the script (configuration, values per visited  *)
(* point, predicted outcome of each solve) is printed; the harness builds a *)
(* problem that reports exactly these values, runs the real solver on it,   *)
(* and SolverTrace.tla checks the recorded execution.                       *)
(*                                                                         *)
(* The problem: T = 1, one state, one control; f = x_1 + gap, Lu, Luu and   *)
(* the constraint value are those of the point, all other derivatives are   *)
(* zero.  Hence the direction is dx_1 = gap, du = -Lu/(Luu+reg), the        *)
(* subproblem fails iff Luu + reg <= 0, and the residual is                 *)
(* max(|Lu|, gap, violation).                                               *)
(***************************************************************************)
EXTENDS Machine, TLC, Json, IOUtils

KIND == IOEnv.KIND
VARIABLES ph, c, s, pts, cur, keys, runs, acc
vars == <<ph, c, s, pts, cur, keys, runs, acc>>

R(S) == RandomElement(S)
Q(n, d) == FDiv(n, d)
B(a) == FBits(a)
P(n) == R(1..100) <= n       \* true with n percent

Odd(a, b) == Q(R(a..b) * 10000 + R(0..9999), 199970041)
Lists == <<<<Q(1, 1), Q(1, 2), Q(1, 4)>>, <<Q(1, 1)>>, <<Q(1, 1), Q(1, 4)>>, <<Q(1, 2), Q(1, 4), Q(1, 8)>>,
           <<Q(1, 1), Q(1, 2), Q(1, 4), Q(1, 8), Q(1, 16)>>>>
Sel(q) == q[R(1..Len(q))]
Config(z) ==   \* z: keeps TLC from caching a random value as a constant
  [kind |-> KIND, maxit |-> R(0..7), tol |-> Q(1, 2), filter |-> P(60), fsize |-> R(1..3),
   muD |-> Sel(<<Q(1, 2), Q(1, 1), Q(2, 1)>>), muC |-> Sel(<<Q(1, 2), Q(1, 1), Q(2, 1)>>), lagc |-> Q(10, 1),
   regmin |-> Sel(<<Q(0, 1), Q(1, 64), Q(1, 4)>>), regmax |-> Sel(<<Q(1, 2), Q(1, 2), Q(4, 1), Q(1024, 1)>>),
   incf |-> Sel(<<Q(2, 1), Q(8, 1)>>), decf |-> Sel(<<Q(2, 1), Q(4, 1)>>),
   thdec |-> Sel(<<Q(1, 4), Q(1, 2), Q(1, 1)>>), thinc |-> Sel(<<Q(1, 8), Q(1, 4), Q(1, 2), Q(1, 100)>>),
   extra |-> KIND # "PROXQP" /\ P(50), rmreg |-> KIND = "CSQP" /\ P(10), alphas |-> Sel(Lists),
   ncb |-> IF KIND = "PROXQP" THEN 0 ELSE R(0..2)]
\* one in twelve is a long solve with a deep filter memory: iterates that do not dominate each other
Deep(x) == x.filter /\ x.fsize > 3
LongConfig(z) == [Config(z) EXCEPT !.maxit = R(11..18), !.filter = TRUE, !.fsize = R(4..16), !.regmax = Q(1024, 1), !.rmreg = FALSE,
                                   !.thdec = Q(1, 4), !.thinc = Q(1, 100)]
AnyConfig(z) == IF P(8) THEN LongConfig(z) ELSE Config(z)
CfgJson(x) ==
  [x EXCEPT !.tol = B(@), !.muD = B(@), !.muC = B(@), !.lagc = B(@), !.regmin = B(@), !.regmax = B(@), !.incf = B(@),
            !.decf = B(@), !.thdec = B(@), !.thinc = B(@), !.alphas = [j \in 1..Len(@) |-> B(@[j])]]

\* an ordinary point
Point(z) ==
  LET good == P(12) IN   \* close to optimal
  [c |-> R(0..3), g |-> IF good THEN 0 ELSE R(0..2),
   v |-> IF KIND = "SQP" THEN 0 ELSE IF good THEN Sel(<<Q(0, 1), Q(1, 2)>>) ELSE Sel(<<Q(0, 1), Q(1, 2), Q(1, 1), Q(2, 1)>>),
   \* odd fractions: no two steps lead to the same control
   lu |-> IF good /\ P(50) THEN Q(1, 2) ELSE IF good THEN Odd(1000, 9999) ELSE Odd(10001, 90000),
   luu |-> IF KIND = "PROXQP" \/ P(75) THEN Q(7, 10) ELSE Sel(<<Q(0 - 3, 16), Q(0 - 3, 1), Q(0 - 3, 1), Q(0 - 1, 1000000)>>),
   bad |-> "ok", x1 |-> Q(1000 * (z + 1), 1)]
Faults == <<"nanc", "infc", "ninfc", "nanx", "infx", "throw0">> \o (IF KIND = "SQP" THEN <<>> ELSE <<"nang", "infg">>)
\* what a trial may hit: often a copy of something the filter remembers
TrialPoint(x) ==   \* x: its terminal state
  LET p == [Point(0) EXCEPT !.x1 = x] IN
  IF \E j \in 1..Len(pts) : pts[j].bad = "throwT" /\ FEq(pts[j].x1, x) THEN [p EXCEPT !.bad = "throwT"]
  ELSE IF P(8) /\ ~ \E j \in 1..Len(pts) : FEq(pts[j].x1, x) THEN [p EXCEPT !.bad = "throwT"]
  ELSE IF P(12) THEN [p EXCEPT !.bad = Sel(Faults)]
  ELSE IF Len(s.hist) > 0 /\ P(50)
       THEN LET h == s.hist[R(1..Len(s.hist))]
                k == R(1..4) IN
            \* equal to a remembered point, or better/worse in one metric
            [p EXCEPT !.c = IF k = 1 THEN FSub(h[1], 1) ELSE h[1],
                      !.g = IF k = 2 /\ FLe(1, h[2]) THEN FSub(h[2], 1) ELSE h[2],
                      !.v = IF k = 3 /\ FLe(1, h[3]) THEN FSub(h[3], 1) ELSE h[3]]
  ELSE p
\* next to every remembered iterate (dearer, smaller gap), or matched by just one of them, often the oldest
DeepPoint(x) ==
  LET n == Len(s.hist)
      p == [Point(0) EXCEPT !.x1 = x, !.v = s.met[3], !.luu = Q(7, 10), !.lu = Odd(10001, 90000)]
      h == s.hist[IF P(50) THEN R(1..n) ELSE IF n > c.fsize THEN n - c.fsize + R(0..1) ELSE 1] IN
  IF P(75) THEN [p EXCEPT !.c = FAdd(s.met[1], 1), !.g = FSub(s.met[2], 1)]
  ELSE [p EXCEPT !.c = h[1], !.g = h[2]]
NewPoint(x) == IF Deep(c) /\ Len(s.hist) > 0 /\ FLt(2, s.met[2]) THEN DeepPoint(x) ELSE TrialPoint(x)
FirstPoint(x) == IF Deep(x) THEN [Point(Len(pts)) EXCEPT !.c = 0, !.g = 30, !.luu = Q(7, 10), !.lu = Odd(10001, 90000)]
                 ELSE Point(Len(pts))
PtJson(p) == [p EXCEPT !.c = B(@), !.g = B(@), !.v = B(@), !.lu = B(@), !.luu = B(@), !.x1 = B(@)]
Met(p) == <<p.c, p.g, p.v>>
KktOf(p) == FMax(FAbs(p.lu), FMax(p.g, p.v))

NoS == [ph |-> "none"]
Init == ph = "cfg" /\ c = <<>> /\ s = NoS /\ pts = <<>> /\ cur = 0 /\ keys = {} /\ runs = <<>> /\ acc = 0

RegInits == <<FNaN, FNaN, FNaN, Q(0, 1), Q(1, 16), Q(1, 2)>>
Begin(cc) ==
  \E p \in {FirstPoint(cc)}, ri \in {Sel(RegInits)} :
  /\ pts' = Append(pts, p) /\ cur' = Len(pts) + 1 /\ keys' = {} /\ acc' = 0
  /\ s' = Start(cc, ri, FALSE)
  /\ runs' = Append(runs, [maxit |-> cc.maxit, reginit |-> B(ri), start |-> Len(pts) + 1])
PickCfg ==
  /\ ph = "cfg" /\ ph' = "run"
  /\ \E cc \in {AnyConfig(ph)} : c' = cc /\ Begin(cc)

Dir ==
  /\ ph = "run" /\ s.ph = "dir"
  /\ s' = (IF FLe(FAdd(pts[cur].luu, s.reg), 0) THEN DirFail(c, s) ELSE DirOk(c, s, Met(pts[cur])))
  /\ UNCHANGED <<ph, c, pts, cur, keys, runs, acc>>
CheckKkt == ph = "run" /\ s.ph = "kkt" /\ s' = Kkt(c, s, KktOf(pts[cur]), 0) /\ UNCHANGED <<ph, c, pts, cur, keys, runs, acc>>
Cb == ph = "run" /\ s.ph = "cb" /\ s' = Callback(c, s) /\ UNCHANGED <<ph, c, pts, cur, keys, runs, acc>>
Outcome(p) == p.bad = "ok"
Try ==
  /\ ph = "run" /\ s.ph = "ls"
  /\ LET key == <<cur, B(s.reg), s.ai>>
         seen == {k \in keys : k[1] = key}
         old == seen # {}
         n == IF old THEN (CHOOSE k \in seen : TRUE)[2] ELSE Len(pts) + 1
     IN \E p \in {IF old THEN pts[n] ELSE NewPoint(FAdd(pts[cur].x1, FMul(c.alphas[s.ai], pts[cur].g)))} :
     LET ok == Outcome(p)
         take == ok /\ Acceptable(c, s, Met(p))
     IN /\ pts' = (IF old THEN pts ELSE Append(pts, p))
        /\ keys' = keys \cup {<<key, n>>}
        /\ cur' = (IF take THEN n ELSE cur)
        /\ acc' = (IF take THEN acc + 1 ELSE acc)
        /\ s' = Trial(c, s, ok, Met(p), FALSE)
  /\ UNCHANGED <<ph, c, runs>>
Fin ==
  /\ ph = "run" /\ s.ph = "done"
  /\ LET r == [runs EXCEPT ![Len(runs)] = @ @@ [ret |-> s.ret, iter |-> s.iter, reg |-> B(s.reg), acc |-> acc, at |-> cur, why |-> s.why]]
     IN \E again \in {Len(runs) < 3 /\ s.ret # 2 /\ P(40)} :
        IF again
        THEN \E p \in {Point(Len(pts))}, ri \in {Sel(RegInits)}, cc \in {[c EXCEPT !.maxit = R(0..5)]} :
             /\ ph' = "run" /\ c' = cc
             /\ pts' = Append(pts, p) /\ cur' = Len(pts) + 1 /\ keys' = {} /\ acc' = 0
             /\ s' = Start(cc, ri, FALSE)
             /\ runs' = Append(r, [maxit |-> cc.maxit, reginit |-> B(ri), start |-> Len(pts) + 1])
        ELSE /\ PrintT("@@G " \o ToJson([cfg |-> CfgJson(c), pts |-> [j \in 1..Len(pts) |-> PtJson(pts[j])], runs |-> r]))
             /\ ph' = "end" /\ runs' = r /\ UNCHANGED <<c, s, pts, cur, keys, acc>>
Next == PickCfg \/ Dir \/ CheckKkt \/ Cb \/ Try \/ Fin
Spec == Init /\ [][Next]_vars
=============================================================================
