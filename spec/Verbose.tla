------------------------------ MODULE Verbose -------------------------------
(***************************************************************************)
(* The verbose callback: a table printed row by row while a solver runs.    *)
(*                                                                         *)
(* One solve is a sequence of calls.  The state is the number of calls made *)
(* and the iteration of the last one.  A call prints                        *)
(*   - the headings if the iteration number is a multiple of ten,           *)
(*   - one row: the iteration number and one word per column,               *)
(* and changes nothing.  A word is the published value of its column,       *)
(* rounded to the chosen number of digits; a row of a converged iteration   *)
(* has dashes where a step would be reported.                               *)
(***************************************************************************)
EXTENDS F64, LinAlg, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
Sizes == [k \in 1..Len(Traces) |-> Len(Traces[k].ev)]
VARIABLES k, i, s
vars == <<k, i, s>>
Hd == Traces[k]
e == Hd.ev[i]
D(ok, what) == IF ok THEN {} ELSE {what}

\* ------------------------------ the table ------------------------------
Cols ==    \* name, published value, dashes at convergence
  CASE Hd.kind = "CSQP" ->
         <<<<"merit", "merit", FALSE>>, <<"cost", "cost", FALSE>>, <<"||gaps||", "gap", FALSE>>,
           <<"||Constraint||", "viol", FALSE>>, <<"||(dx,du)||", "size", TRUE>>, <<"step", "step", TRUE>>,
           <<"KKT criteria", "kkt", FALSE>>, <<"QP iters", "qpit", TRUE>>>>
    [] Hd.kind = "SQP" ->
         <<<<"merit", "merit", FALSE>>, <<"cost", "cost", FALSE>>, <<"||gaps||", "gap", FALSE>>,
           <<"step", "step", TRUE>>, <<"KKT criteria", "kkt", FALSE>>>>
    [] OTHER -> <<<<"cost", "cost", FALSE>>, <<"step", "step", TRUE>>, <<"KKT criteria", "kkt", FALSE>>>>
RECURSIVE Names(_)
Names(c) == IF c = <<>> THEN "" ELSE " " \o c[1][1] \o Names(Tail(c))
Heading == "iter" \o Names(Cols)
Dashes == {"-", "--", "---", "----", "-----", "------"}

Val(name) == IF name = "size" THEN FDiv(FAdd(e.xg, e.ug), 2) ELSE e[name]
Decade(v) == CHOOSE n \in (0 - 330)..310 : FLe(FPow10(n), v) /\ ~ FLe(FPow10(n + 1), v)
\* a word shows the value v, rounded to p digits
Unit(v, p, sci) == IF sci /\ ~ FEq(v, 0) THEN FPow10(Decade(FAbs(v)) - p) ELSE FPow10(0 - p)
Shows(w, v, p) ==    \* in either notation
  /\ w.num
  /\ IF FIsFin(v) THEN /\ w.frac = p
                       /\ \/ FEq(w.v, v)
                          \/ FLe(FAbs(FSub(w.v, v)), FMul(FDiv(Unit(v, p, w.sci), 2), FAdd(1, FPow10(0 - 6))))
     ELSE FSame(w.v, v) \/ (FIsNaN(w.v) /\ FIsNaN(v))
Word(w, c) ==
  LET shown == IF c[2] = "qpit" THEN w.num /\ w.s = ToString(e.qpit) ELSE Shows(w, Val(c[2]), e.prec)
      dash == c[3] /\ w.s \in Dashes
  IN IF FLe(e.kkt, e.tol) /\ c[3] THEN dash ELSE shown
Row(l) ==
  /\ Len(l.toks) = Len(Cols) + 1
  /\ l.toks[1].s = ToString(e.iter)
  /\ \A j \in 1..Len(Cols) : Word(l.toks[j + 1], Cols[j])
Headed == e.iter % 10 = 0

\* ------------------- the tables solvers print by themselves -------------------
\* PROXQP: one row per iteration, headings every ten, the last row of a success is marked
PHeading == "iter merit cost grad step ||gaps|| KKT Constraint Norms QP Iters"
Done == FLe(e.kkt, e.tol)
PRow(l) ==
  LET t == l.toks IN
  /\ Len(t) = 9
  /\ t[1].s = (IF Done THEN "END" ELSE ToString(e.iter + 1))
  /\ Shows(t[2], e.merit, 5) /\ Shows(t[3], e.cost, 5) /\ Shows(t[4], FAdd(e.xg, e.ug), 5)
  /\ IF Done THEN t[5].s \in Dashes ELSE Shows(t[5], e.step, 4)
  /\ Shows(t[6], e.gap, 5) /\ Shows(t[7], e.kkt, 5) /\ Shows(t[8], e.viol, 5)
  /\ t[9].num /\ t[9].s = ToString(e.qpit)
PDiff ==
  D(s.in /\ s.table, "a row outside a solve")
  \cup D(e.iter = s.calls, "not exactly one row per iteration with headings every ten")
  \cup (IF Headed /\ ~ s.headed THEN D(Len(e.out) = 1 /\ e.out[1].text = PHeading, "headings")
        ELSE D(Len(e.out) = 1 /\ PRow(e.out[1]), "row does not show the published values"))
\* ADMM: a row when a subproblem starts and one for each of its checks
Tolerance(rel) == IF FLe(FAbs(e.erel), FPow10(0 - 15)) THEN e.eabs ELSE FAdd(e.eabs, FMul(e.erel, rel))
QRow(l) ==
  LET t == l.toks
      n == IF s.q < 0 THEN 0 ELSE s.q + e.every
      Pair(j, name, v) == t[j].s = name /\ t[j + 1].s = "=" /\ Shows(t[j + 2], v, 4)
  IN /\ Len(t) = 14
     /\ t[1].s = "Iters" /\ t[2].s \in {"0", ToString(n)}
     /\ Pair(3, "norm_primal", e.np) /\ Pair(9, "norm_dual", e.nd)
     /\ IF t[2].s = "0" THEN Pair(6, "norm_primal_tol", e.npt) /\ Pair(12, "norm_dual_tol", e.ndt)
        ELSE Pair(6, "norm_primal_tol", Tolerance(e.npr)) /\ Pair(12, "norm_dual_tol", Tolerance(e.ndr))
QDiff ==
  D(s.in /\ s.table, "a row outside a solve")
  \cup D(Len(e.out) = 1 /\ QRow(e.out[1]), "row of the subproblem does not show the check")

\* ------------------------------ its history ------------------------------
S0 == [calls |-> 0, in |-> FALSE, last |-> 0, table |-> FALSE, headed |-> FALSE, q |-> 0 - 1,
       n |-> [ties |-> 0, rows |-> 0, checks |-> 0, lines |-> 0, heads |-> 0, dashed |-> 0, refused |-> 0, solves |-> 0]]
LineDiff ==
  D(s.in, "a row outside a solve")
  \cup D(~ e.threw, "the callback fails")
  \cup D(Hd.kind # "CSQP" \/ s.q = (IF ~ s.table THEN 0 - 1 ELSE (e.qpit \div e.every) * e.every), "a check of the subproblem without its row")
  \cup D(e.same, "printing changes the solver")
  \cup D(s.calls = 0 \/ e.iter >= s.last, "iterations out of order")  \* an extra iteration after a failed search keeps its number
  \cup (IF e.threw THEN {}
        ELSE IF Len(e.out) # (IF Headed THEN 2 ELSE 1) THEN {"not exactly one row per iteration with headings every ten"}
        ELSE D(~ Headed \/ e.out[1].text = Heading, "headings")
             \cup D(Row(e.out[Len(e.out)]), "row does not show the published values"))
PrecDiff ==
  IF e.set < 0 THEN D(e.threw /\ e.now = e.old, "negative precision accepted")
  ELSE D(~ e.threw /\ e.now = e.set, "precision not taken over")

EndDiff ==    \* PROXQP: an iteration that gives up has no row
  D(~ (Hd.kind = "PROXQP" /\ s.table /\ ~ e.threw) \/ s.calls = e.iter + (IF e.ok THEN 1 ELSE 0), "not exactly one row per iteration with headings every ten")
  \cup D(e.rest = "" /\ ~ s.headed, "an incomplete row")
Diff == CASE e.e = "line" -> LineDiff [] e.e = "prec" -> PrecDiff
        [] e.e = "prow" -> PDiff [] e.e = "qrow" -> QDiff [] e.e = "end" -> EndDiff [] OTHER -> {}
Upd ==
  CASE e.e = "begin" -> [s EXCEPT !.calls = 0, !.in = TRUE, !.table = e.table, !.headed = FALSE, !.q = 0 - 1, !.n.solves = @ + 1]
    [] e.e = "end" -> [s EXCEPT !.in = FALSE]
    [] e.e = "prec" -> [s EXCEPT !.n.refused = @ + (IF e.threw THEN 1 ELSE 0)]
    [] e.e = "prow" -> IF Headed /\ ~ s.headed THEN [s EXCEPT !.headed = TRUE, !.n.heads = @ + 1]
                       ELSE [s EXCEPT !.headed = FALSE, !.calls = @ + 1, !.n.rows = @ + 1, !.n.dashed = @ + (IF Done THEN 1 ELSE 0)]
    [] e.e = "qrow" -> [s EXCEPT !.q = (IF Len(e.out) = 1 /\ Len(e.out[1].toks) > 1 /\ e.out[1].toks[2].s = "0" THEN 0 ELSE IF @ < 0 THEN 0 ELSE @ + e.every), !.n.checks = @ + 1]
    [] OTHER -> [s EXCEPT !.calls = @ + 1, !.q = 0 - 1, !.last = e.iter, !.n.lines = @ + 1, !.n.heads = @ + (IF Headed THEN 1 ELSE 0),
                          !.n.dashed = @ + (IF FLe(e.kkt, e.tol) THEN 1 ELSE 0),
                          !.n.ties = @ + (IF FEq(e.kkt, e.tol) THEN 1 ELSE 0)]

Init == k \in 1..Len(Traces) /\ i = 1 /\ s = S0
Next ==
  /\ i <= Sizes[k]
  /\ \A x \in Diff : PrintT("@@V " \o ToJson([p |-> "P23", c |-> x, id |-> Hd.id, kind |-> Hd.kind, ev |-> i]))
  /\ s' = Upd
  /\ i' = i + 1 /\ k' = k
  /\ (i = Sizes[k] => PrintT("@@S " \o ToJson(s'.n)))
Spec == Init /\ [][Next]_vars
=============================================================================
