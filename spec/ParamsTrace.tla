---------------------------- MODULE ParamsTrace -----------------------------
(***************************************************************************)
(* Executions of the parameter interface of the real solvers (C++, or the   *)
(* Python bindings) against Params.tla.  Every event carries all parameters *)
(* as read back through their getters.                                      *)
(***************************************************************************)
EXTENDS Params, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
Meta == [k \in 1..Len(Traces) |-> Len(Traces[k].ev)]
VARIABLES k, i, p, n
vars == <<k, i, p, n>>
Hd == Traces[k]
Ev == Hd.ev[i]
PROP == IF Hd.scen = "py" THEN "P19" ELSE "P16"
E(ok, clause) == IF ok THEN {} ELSE {<<PROP, clause>>}

\* a refused value is refused with an exception and nothing else happens
SetErr ==
  LET want == Apply(p, Ev.op, Ev.v)
      got == Ev.p IN
  E(Ev.threw = ~ Accept(Ev.op, Ev.v), IF Ev.threw THEN "a value in the documented range is refused: " \o Ev.op
                                      ELSE "a value outside the documented range is accepted: " \o Ev.op)
  \cup (IF got = want THEN {}
        ELSE LET bad == {f \in DOMAIN want : got[f] # want[f]} IN
             IF bad \cap Targets(Ev.op) = {} THEN {<<PROP, "setting a parameter changes another one: " \o Ev.op>>}
             ELSE IF Accept(Ev.op, Ev.v) THEN {<<PROP, "a parameter does not read back as set: " \o Ev.op>>}
             ELSE {<<PROP, "a refused value changes a parameter: " \o Ev.op>>})
Err ==
  CASE Ev.e = "new" -> E(DOMAIN Ev.p = (IF Hd.scen = "py" THEN PyFields(Hd.kind) ELSE Fields(Hd.kind)) /\ InRange(Ev.p), "a default outside the documented range")
    [] Ev.e = "set" -> SetErr
    [] Ev.e = "solve" -> E(Solved(p, Ev.p), "solving changes a parameter")
    [] Ev.e = "ctor" -> \* constraints the solver cannot treat are refused up front
         E(Hd.kind \in {"CSQP", "PROXQP"} => (Ev.threw = (Ev.nh > 0)),
           IF Ev.threw THEN "a problem without unsupported constraints is refused" ELSE "a problem with unsupported equality constraints is accepted")
    [] OTHER -> {<<PROP, "an unknown event">>}

Count(f) == [n EXCEPT ![f] = @ + 1]
Init == k \in 1..Len(Traces) /\ i = 1 /\ p = <<>> /\ n = [set |-> 0, refused |-> 0, solve |-> 0, ctor |-> 0]
Next ==
  /\ i <= Meta[k]
  /\ \A x \in Err : PrintT("@@V " \o ToJson([p |-> x[1], c |-> x[2], id |-> Hd.id, kind |-> Hd.kind, ev |-> i]))
  /\ p' = (IF Ev.e = "ctor" THEN p ELSE Ev.p)
  /\ n' = (IF Ev.e = "set" THEN (IF Ev.threw THEN Count("refused") ELSE Count("set")) ELSE IF Ev.e \in {"solve", "ctor"} THEN Count(Ev.e) ELSE n)
  /\ (i = Meta[k] => PrintT("@@S " \o ToJson(n')))
  /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_vars
=============================================================================
