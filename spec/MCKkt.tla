------------------------------- MODULE MCKkt --------------------------------
(***************************************************************************)
(* Exhaustive check of the loop of SolverKKT (Kkt.tla) against every small  *)
(* environment: costs (also non-finite) and refusals of trial points, the   *)
(* improvement model and the two optimality measures of every iterate.      *)
(***************************************************************************)
EXTENDS Kkt, TLC
CONSTANTS VALS, MAXIT, NALPHA
VARIABLES c, s, pts, good, tries
vars == <<c, s, pts, good, tries>>
BAD == 99
MCFin(v) == v # BAD
Cfgs == [maxit : 0..MAXIT, tol : {0}, thacc : {0, 1}, thgrad : {1}, thstop : {1}, alphas : {[i \in 1..NALPHA |-> NALPHA + 1 - i]}, ncb : {0, 2}]
Init ==
  /\ c \in Cfgs
  /\ \E f \in BOOLEAN : s = KStart(c, f)
  /\ pts = <<2>> /\ good = <<>> /\ tries = 0
Dir ==
  /\ s.ph = "dir"
  /\ \/ \E z \in {0, 1} : s' = KDirOk(s, pts[Len(pts)], z)
     \/ s' = KDirFail(s)
  /\ UNCHANGED <<c, pts, good, tries>>
Exp == s.ph = "exp" /\ \E d \in {<<0 - 2, 0>>, <<0, 0>>, <<2, 0>>, <<2, 0 - 2>>} : s' = KModel(c, s, d) /\ UNCHANGED <<c, pts, good, tries>>
Try ==
  /\ s.ph = "ls"
  /\ \E v \in VALS \cup {BAD}, ok \in BOOLEAN :
       LET acc == ok /\ MCFin(v) /\ KAcceptable(c, s, v) IN
       /\ s' = IF acc THEN KTake(c, s, v) ELSE KRefuse(c, s)
       /\ IF acc THEN pts' = Append(pts, v) /\ good' = Append(good, [d |-> s.d, isf |-> s.isf, x |-> Expected2(s.d, c.alphas[s.ai])]) ELSE UNCHANGED <<pts, good>>
  /\ tries' = tries + 1
  /\ UNCHANGED c
Stop == s.ph = "stop" /\ \E v \in {0, 1} : s' = KStop(c, s, v) /\ UNCHANGED <<c, pts, good, tries>>
Cb == s.ph = "cb" /\ s' = KCb(c, s) /\ UNCHANGED <<c, pts, good, tries>>
Next == Dir \/ Exp \/ Try \/ Stop \/ Cb
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Budget == s.iter <= c.maxit /\ tries <= NALPHA * c.maxit
Ends == <>(s.ph = "done")
Contained == \A j \in 1..Len(pts) : MCFin(pts[j])
\* a feasible iterate that is not stationary is left only for one that is better by the demanded share of the model
Descent == \A j \in 1..Len(good) : (good[j].isf /\ good[j].d[1] >= c.thgrad) => pts[j] - pts[j + 1] > c.thacc * good[j].x
\* success needs one of the two optimality measures, the second one at an iterate taken to be feasible
Certified == (s.ph = "done" /\ s.ret = 1) => (s.kkt <= c.tol \/ (s.was /\ s.stop < c.thstop))
\* only the first step of a solve may start from an infeasible iterate
Feasible == \A j \in 2..Len(good) : good[j].isf
Shape == s.ph = "done" => s.ret \in {0, 1} /\ (s.ret = 0 => s.why \in {"maxit", "refused"})
=============================================================================
