------------------------------ MODULE MCAdmm --------------------------------
(***************************************************************************)
(* Protocol of the ADMM loop: which factorisation is used when, when the    *)
(* residuals are looked at, and how the loop ends.  The numbers are         *)
(* abstracted: rho is a version number bumped by the adaptation, the        *)
(* convergence test is a free choice, the clock may expire at any time.     *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS MAXQP, MAXINT
VARIABLES maxqp, int, n, rho, fac, ph, why, checked
vars == <<maxqp, int, n, rho, fac, ph, why, checked>>
Refactor(k) == k % int = 1 \/ int = 1
Init == /\ maxqp \in 1..MAXQP /\ int \in 1..MAXINT
        /\ n = 0 /\ rho = 1 /\ fac = 0 /\ ph = "top" /\ why = "" /\ checked = 0
Top == /\ ph = "top"
       /\ IF n = maxqp THEN /\ ph' = "end" /\ why' = "budget" /\ UNCHANGED <<n, fac>>
          ELSE \/ /\ ph' = "end" /\ why' = "late" /\ UNCHANGED <<n, fac>>
               \/ /\ n' = n + 1 /\ ph' = "x" /\ fac' = (IF Refactor(n + 1) THEN rho ELSE fac) /\ why' = why
       /\ UNCHANGED <<maxqp, int, rho, checked>>
XStep == /\ ph = "x" /\ ph' = "upd" /\ UNCHANGED <<maxqp, int, n, rho, fac, why, checked>>
Update == /\ ph = "upd"
          /\ IF n % int = 0
             THEN /\ checked' = n
                  /\ rho' \in {rho, rho + 1}
                  /\ \/ ph' = "end" /\ why' = "tolerance"
                     \/ ph' = "top" /\ why' = why
             ELSE ph' = "top" /\ UNCHANGED <<rho, why, checked>>
          /\ UNCHANGED <<maxqp, int, n, fac>>
Next == Top \/ XStep \/ Update
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
FreshFactor == ph = "x" => fac = rho          \* the x-step never uses a stale penalty
Budget == n <= maxqp
StopOk == ph = "end" => \/ why = "budget" /\ n = maxqp
                        \/ why = "tolerance" /\ checked = n
                        \/ why = "late"
Ends == <>(ph = "end")
=============================================================================
