------------------------------- MODULE MCDdp --------------------------------
(***************************************************************************)
(* Exhaustive check of the outer loop of SolverDDP and SolverFDDP           *)
(* (Ddp.tla, part 1) against every small environment: costs and gaps of the *)
(* points visited, improvement models, refused trials, unsolvable           *)
(* subproblems, optimality residuals.                                       *)
(***************************************************************************)
EXTENDS Ddp, TLC

CONSTANTS KINDS, VALS, MAXIT, FSIZES
MCRegFloor == 1
MCIsFull(a) == a = 2            \* step lengths are 2 (full) and 1
BAD == 99
MCFin(x) == x # BAD

VARIABLES c, s, cur, pts, good, tries, fails, r0
vars == <<c, s, cur, pts, good, tries, fails, r0>>

Cfgs == [kind : KINDS, maxit : 0..MAXIT, tol : {0}, filter : BOOLEAN, fsize : FSIZES, regmin : {0, 1}, regmax : {4},
         incf : {2}, decf : {2}, thdec : {1}, thinc : {1}, thgrad : {0, 1}, thacc : {1}, thneg : {2}, rmreg : {FALSE},
         alphas : {<<2, 1>>}, ncb : {0, 2}]

Init ==
  /\ c \in {x \in Cfgs : (x.kind = "FDDP" \/ ~ x.filter) /\ (x.filter \/ x.fsize = 1)}
  /\ \E g \in {0, 1} : pts = <<<<2, g>>>> /\ \E feas \in BOOLEAN : (g = 0 \/ ~ feas) /\ (r0 \in {0, c.regmin}) /\ s = DStart(c, r0, feas)
  /\ cur = 1 /\ good = <<>> /\ tries = 0 /\ fails = 0

Dir ==
  /\ s.ph = "dir"
  /\ \/ s' = DDirOk(c, s, pts[cur]) /\ fails' = fails
     \/ s' = DDirFail(c, s) /\ fails' = fails + 1
  /\ UNCHANGED <<c, cur, pts, good, tries, r0>>
Ds == {<<a, 0>> : a \in {0 - 1, 0, 1}}
Exp ==
  /\ s.ph = "exp"
  /\ \E d \in Ds : s' = DModel(c, s, d)
  /\ UNCHANGED <<c, cur, pts, good, tries, fails, r0>>
CheckKkt ==
  /\ s.ph = "kkt"
  /\ \E z \in {0, 1} : s' = DKkt(c, s, IF pts[cur][2] > 0 THEN pts[cur][2] ELSE z)
  /\ UNCHANGED <<c, cur, pts, good, tries, fails, r0>>
Try ==
  /\ s.ph = "ls"
  /\ \E v \in VALS \cup {BAD}, ok \in BOOLEAN, d \in (IF c.kind = "FDDP" /\ ~ c.filter THEN Ds ELSE {s.d}) :
       LET a == c.alphas[s.ai]
           g == IF Closes(c, s.isf, a) THEN 0 ELSE IF a = 2 THEN 0 ELSE pts[cur][2]
           m == <<v, g>>
           acc == ok /\ MCFin(v) /\ DAcceptable(c, s, m, d)
       IN /\ s' = IF acc THEN DTake(c, s, m) ELSE DRefuse(c, s)
          /\ IF acc THEN pts' = Append(pts, m) /\ cur' = Len(pts) + 1
                         /\ good' = Append(good, [h |-> Len(s.hist), d |-> d, a |-> a, isf |-> s.isf])
             ELSE UNCHANGED <<pts, cur, good>>
  /\ tries' = tries + 1
  /\ UNCHANGED <<c, fails, r0>>
Cb == s.ph = "cb" /\ s' = DCb(c, s) /\ UNCHANGED <<c, cur, pts, good, tries, fails, r0>>
Next == Dir \/ Exp \/ CheckKkt \/ Try \/ Cb
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Budget == s.iter <= c.maxit /\ tries <= 2 * c.maxit /\ fails <= 4 * (c.maxit + 1)
Ends == <>(s.ph = "done")
RegRange == s.reg >= 0 /\ s.reg <= c.regmax /\ (s.reg >= c.regmin \/ s.reg = r0)
\* an accepted iterate is not dominated by any remembered one
FilterSafe == c.filter => \A j \in 1..Len(good) : \A h \in 1..Len(s.hist) :
   (h <= good[j].h /\ h > good[j].h - c.fsize) => ~ (s.hist[h][1] <= pts[j + 1][1] /\ s.hist[h][2] <= pts[j + 1][2])
\* away from stationary points a feasible DDP iterate is only left for a better one
Descent == c.kind = "DDP" => \A j \in 1..Len(good) : (good[j].isf /\ good[j].d[1] > 0 /\ good[j].d[1] >= c.thgrad) => pts[j + 1][1] < pts[j][1]
\* an iterate said to be feasible has no gaps, and stays so
FeasSound == s.isf => pts[cur][2] = 0
Contained == \A j \in 1..Len(pts) : MCFin(pts[j][1])
Certified == (s.ph = "done" /\ s.ret = 1) => (s.conv /\ pts[cur][2] = 0)
Shape == s.ph = "done" => s.ret \in {0, 1} /\ (s.ret = 0 => s.why \in {"maxit", "regmax"})
=============================================================================
