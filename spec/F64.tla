-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* IEEE-754 binary64 arithmetic for TLC.                                    *)
(*                                                                         *)
(* A real quantity in these specifications is either                       *)
(*   - an Int (the small model-checking instances use Ints only),          *)
(*   - a 16 digit hexadecimal string: the bit pattern of a double observed *)
(*     in the implementation, or                                           *)
(*   - an opaque pair <<hi, lo>> returned by one of the operators below.   *)
(* The definitions in this file give the intended meaning for Ints; the    *)
(* class F64.class (java/F64.java) overrides them with IEEE arithmetic, so *)
(* that one specification is used both for exhaustive model checking over  *)
(* small Int domains and for checking executions of the real code.         *)
(* This module is the only trusted numeric primitive: nothing in the Java  *)
(* class knows about the solvers.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

FAdd(a, b) == a + b
FSub(a, b) == a - b
FMul(a, b) == a * b
FDiv(a, b) == a \div b
FNeg(a)    == 0 - a
FAbs(a)    == IF a < 0 THEN 0 - a ELSE a
FMax(a, b) == IF a < b THEN b ELSE a      \* NaN if either argument is NaN
FMin(a, b) == IF a < b THEN a ELSE b      \* NaN if either argument is NaN
FSqrt(a)   == CHOOSE r \in 0..a : r * r <= a /\ (r + 1) * (r + 1) > a
FLt(a, b)  == a < b                       \* FALSE if either argument is NaN
FLe(a, b)  == a <= b                      \* FALSE if either argument is NaN
FEq(a, b)  == a = b                       \* FALSE if either argument is NaN
FSame(a, b) == a = b                      \* bit identity up to -0/0 and NaN
FIsNaN(a)  == FALSE
FIsFin(a)  == TRUE
FPow10(k)  == CHOOSE x \in {0} : TRUE     \* 10^k, k any Int (overridden)
FInf       == CHOOSE x \in {0} : TRUE     \* +infinity (overridden)
FNaN       == CHOOSE x \in {0} : TRUE     \* a NaN (overridden)
FFloor(a)  == a
FSum(s)    == LET RECURSIVE f(_)
                  f(i) == IF i = 0 THEN 0 ELSE FAdd(f(i - 1), s[i])
              IN f(Len(s))
FMaxSeq(s) == LET RECURSIVE f(_)      \* max of 0 and all entries
                  f(i) == IF i = 0 THEN 0 ELSE FMax(f(i - 1), s[i])
              IN f(Len(s))
FBits(a)   == a                          \* bit pattern (overridden)
FShow(a)   == a                          \* decimal rendering (overridden)
=============================================================================
