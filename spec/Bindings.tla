------------------------------ MODULE Bindings ------------------------------
(***************************************************************************)
(* A session repeated through the Python bindings, in lockstep with the     *)
(* same session through the C++ interface: every operation has the same     *)
(* outcome, and every attribute shows, at every callback and after every    *)
(* operation, the quantity of the solver that it is named after.            *)
(* The state remembers what the callbacks of the current solve were shown:  *)
(* a CallbackLogger must have logged exactly that.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
Sizes == [k \in 1..Len(Traces) |-> IF Len(Traces[k].a) < Len(Traces[k].b) THEN Len(Traces[k].a) ELSE Len(Traces[k].b)]
VARIABLES k, i, seen, n
vars == <<k, i, seen, n>>
Hd == Traces[k]
A == Hd.a[i]
B == Hd.b[i]
D(ok, what) == IF ok THEN {} ELSE {what}

\* columns of a CallbackLogger, and the attributes they hold
Columns ==
  [us |-> "us", xs |-> "xs", fs |-> "fs", iter |-> "iter", cost |-> "cost", merit |-> "merit", preg |-> "preg", dreg |-> "dreg",
   step |-> "stepLength", KKT |-> "KKT"]
  @@ (IF Hd.kind = "CSQP" THEN [gap_norm |-> "gap_norm", constraint_norm |-> "constraint_norm", qp_iter |-> "qp_iters"] ELSE <<>>)

Attrs ==
  IF DOMAIN A.o # DOMAIN B.o THEN {"an attribute is missing"}
  ELSE {"attribute " \o f \o " is not the quantity it is named after" : f \in {g \in DOMAIN A.o : A.o[g] # B.o[g]}}

\* callbacks are shown the same things in the same order, so one of them stands for all
Logged ==
  IF "log" \notin DOMAIN B THEN {}
  ELSE IF Len(seen) = 0 THEN D(DOMAIN B.log = {}, "something that was not published was logged")
  ELSE D(DOMAIN B.log = DOMAIN Columns, "a column of the log is missing")
       \cup {"column " \o c \o " of the log does not hold what was published" :
               c \in {d \in DOMAIN B.log \cap DOMAIN Columns : B.log[d] # [j \in 1..Len(seen) |-> seen[j][Columns[d]]]}}

Diff ==
  IF A.e # B.e THEN {"a different sequence of callbacks"}
  ELSE IF A.e = "cb" THEN D(A.id = B.id /\ A.type = B.type, "a callback is called with other arguments") \cup Attrs
  ELSE D(A.threw = B.threw, IF A.threw THEN "an exception is lost" ELSE "an operation fails")
       \cup D(A.threw \/ B.threw \/ A.v = B.v, "a different result of a call")
       \cup Attrs \cup Logged

Last == i = Sizes[k]
Err == Diff \cup D(~ Last \/ Len(Hd.a) = Len(Hd.b), "a different sequence of callbacks")

Init == k \in 1..Len(Traces) /\ i = 1 /\ seen = <<>> /\ n = [ops |-> 0, cb |-> 0, logs |-> 0, logged |-> 0, threw |-> 0]
Next ==
  /\ i <= Sizes[k]
  /\ \A x \in Err : PrintT("@@V " \o ToJson([p |-> "P19", c |-> x, id |-> Hd.id, kind |-> Hd.kind, ev |-> i]))
  /\ seen' = (IF B.e = "cb" THEN (IF B.id = 0 THEN Append(seen, A.o) ELSE seen) ELSE <<>>)
  /\ n' = [n EXCEPT !.ops = @ + (IF A.e = "op" THEN 1 ELSE 0), !.cb = @ + (IF A.e = "cb" THEN 1 ELSE 0),
                    !.logs = @ + (IF "log" \in DOMAIN B THEN 1 ELSE 0), !.logged = @ + (IF "log" \in DOMAIN B THEN Len(seen) ELSE 0),
                    !.threw = @ + (IF A.e = "op" /\ A.threw THEN 1 ELSE 0)]
  /\ (Last => PrintT("@@S " \o ToJson(n')))
  /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_vars
=============================================================================
