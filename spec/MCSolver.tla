----------------------------- MODULE MCSolver -------------------------------
(***************************************************************************)
(* Exhaustive check of the outer loop (Machine.tla) against every small     *)
(* environment: which points the search visits, what the model reports      *)
(* there (including non-finite values and refusals), when the subproblem    *)
(* fails, what the KKT residual is, and when the clock runs out.            *)
(*                                                                         *)
(* Points are abstract; point k has metrics pts[k] and residual kkts[k],    *)
(* both chosen when the point is first seen.  `data` is the point the       *)
(* solver's model data were last evaluated at: what the solver reports is   *)
(* read from there, so the invariant Faithful is about the protocol of      *)
(* re-evaluation and not assumed.                                           *)
(***************************************************************************)
EXTENDS Machine, TLC, FiniteSets

CONSTANTS KINDS, VALS, MAXIT, NALPHA, FSIZES, LATE, BUGS
\* BUGS: names of deliberately wrong variants, used only to show that the
\* invariants are not vacuous (see tools/mutants.sh)

MCRegFloor == 1

VARIABLES c, s, cur, data, pts, good, merits, inputs, r0

vars == <<c, s, cur, data, pts, good, merits, inputs, r0>>

BAD == 99     \* a value that is not finite
MCFin(m) == \A i \in 1..3 : m[i] # BAD
Alphas == [i \in 1..NALPHA |-> NALPHA + 1 - i]   \* e.g. 3,2,1 ("full" step = NALPHA)

Cfgs == [kind : KINDS, maxit : 0..MAXIT, tol : {0}, filter : BOOLEAN, fsize : FSIZES,
         muD : {1}, muC : {1}, lagc : {1}, regmin : {0, 1}, regmax : {4}, incf : {2}, decf : {2},
         thdec : {NALPHA - 1}, thinc : {1}, extra : BOOLEAN, rmreg : {FALSE}, alphas : {Alphas}, ncb : {0, 1}]
Mets == {<<a, b, d>> : a \in VALS, b \in VALS, d \in {0}} \cup {<<BAD, 0, 0>>, <<0, BAD, 0>>, <<0, 0, BAD>>}

Late == IF LATE THEN BOOLEAN ELSE {FALSE}

Init ==
  /\ c \in {x \in Cfgs : (x.kind # "PROXQP" \/ ~ x.extra) /\ (x.filter \/ x.fsize = 1)}
  /\ pts = <<CHOOSE m \in Mets : m = <<2, 2, 0>>>>
  /\ cur = 1 /\ data = 0
  /\ r0 \in {0, c.regmin}
  /\ \E l \in Late : (c.kind = "CSQP" \/ ~ l) /\ s = Start(c, r0, l)
  /\ good = <<>> /\ merits = <<>> /\ inputs = 0

lates == IF c.kind = "CSQP" THEN Late ELSE {FALSE}

Dir ==
  /\ s.ph = "dir"
  /\ \/ \* evaluate (if asked to) and solve the subproblem
        LET d == IF s.rc THEN cur ELSE data
            m == IF s.rc THEN pts[cur] ELSE s.met
        IN s' = DirOk(c, s, m) /\ data' = d
     \/ s' = DirFail(c, s) /\ data' = (IF s.rc THEN cur ELSE data)
     \/ TRUE \in lates /\ s' = DirLate(c, s, IF s.rc THEN pts[cur] ELSE s.met) /\ data' = (IF s.rc THEN cur ELSE data)
  /\ UNCHANGED <<c, cur, pts, good, merits, inputs, r0>>
CheckKkt ==
  /\ s.ph = "kkt"
  /\ \E k \in {0, 1} : s' = Kkt(c, s, IF MCFin(s.met) THEN (IF s.met[2] > 0 THEN s.met[2] ELSE k) ELSE 1, 0)
  /\ UNCHANGED <<c, cur, data, pts, good, merits, inputs, r0>>
Cb == s.ph = "cb" /\ s' = Callback(c, s) /\ UNCHANGED <<c, cur, data, pts, good, merits, inputs, r0>>
Try ==
  /\ s.ph = "ls"
  /\ \E m \in Mets, ok \in BOOLEAN, l \in lates :
       LET acc == ok /\ MCFin(m) /\ Acceptable(c, s, m) IN
       /\ IF acc
          THEN /\ pts' = Append(pts, m) /\ cur' = Len(pts) + 1
               /\ good' = Append(good, Len(s.hist))
               /\ merits' = Append(merits, Merit(c, m, s.mul))
          ELSE UNCHANGED <<pts, cur, good, merits>>
       /\ data' = IF acc THEN Len(pts) + 1 ELSE 0
       /\ s' = Trial(c, s, ok /\ MCFin(m), m, l)
  /\ inputs' = inputs + 1
  /\ UNCHANGED <<c, r0>>
Next == Dir \/ CheckKkt \/ Cb \/ Try
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* --- properties -----------------------------------------------------------
\* P07: bounded work, and every run ends
Budget == s.iter <= c.maxit /\ inputs <= c.maxit * NALPHA
Ends == <>(s.ph = "done")
\* P08: regularization stays in its range and changes only as documented
RegRange == s.reg >= 0 /\ s.reg <= c.regmax /\ (s.reg >= c.regmin \/ s.reg = r0)
\* P04: an accepted iterate is not dominated by any remembered one
FilterSafe == c.filter => \A k \in 1..Len(good) :
   \A j \in 1..Len(s.hist) : (j <= good[k] /\ j > good[k] - c.fsize) =>
     ~ (s.hist[j][1] <= pts[k + 1][1] /\ s.hist[j][2] <= pts[k + 1][2] /\ s.hist[j][3] <= pts[k + 1][3])
\* P05: with the merit function every accepted step strictly decreases it
Descent == ~ c.filter => \A k \in 1..Len(merits) :
   merits[k] < Merit(c, pts[k], 0)
\* P06: only finite points are ever kept (after the initial guess)
Contained == cur = 1 \/ MCFin(pts[cur])
\* P02: whatever is reported belongs to the current iterate
Faithful == s.ph \in {"kkt", "cb", "ls"} => s.met = pts[cur]
Fresh == (s.ph \in {"kkt", "cb"} /\ s.dp = "cur") => s.met = pts[cur]
\* P01: success only with a passed check of the final iterate
Certified == (s.ph = "done" /\ s.ret = 1) => (s.conv /\ MCFin(pts[cur]) /\ pts[cur][2] = 0)
\* P04/P05: with the window of size 1 the filter is exactly "not worse in everything"
Shape == s.ph = "done" => s.ret \in {0, 1, 2}
=============================================================================
