------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Small dense linear algebra over F64.  Vectors are sequences, matrices    *)
(* are sequences of rows.  The definitions are executable; LinAlg.class     *)
(* overrides them only for speed, and LinAlgCheck.tla compares the two.     *)
(***************************************************************************)
EXTENDS F64

VAdd(a, b)   == [i \in 1..Len(a) |-> FAdd(a[i], b[i])]
VSub(a, b)   == [i \in 1..Len(a) |-> FSub(a[i], b[i])]
VScale(k, a) == [i \in 1..Len(a) |-> FMul(k, a[i])]
VMul(a, b)   == [i \in 1..Len(a) |-> FMul(a[i], b[i])]
VDiv(a, b)   == [i \in 1..Len(a) |-> FDiv(a[i], b[i])]
VMax(a, b)   == [i \in 1..Len(a) |-> FMax(a[i], b[i])]
VMin(a, b)   == [i \in 1..Len(a) |-> FMin(a[i], b[i])]
VAbs(a)      == [i \in 1..Len(a) |-> FAbs(a[i])]
Dot(a, b)    == FSum([i \in 1..Len(a) |-> FMul(a[i], b[i])])
\* M has Len(M) rows; a matrix with no rows is <<>>
MatVec(M, v) == [i \in 1..Len(M) |-> Dot(M[i], v)]
\* transpose(M) * v, with n the number of columns of M
MatTVec(M, v, n) == [j \in 1..n |-> FSum([i \in 1..Len(M) |-> FMul(M[i][j], v[i])])]
NormInf(a)   == FMaxSeq([i \in 1..Len(a) |-> FAbs(a[i])])   \* NaN propagates
Norm1(a)     == FSum([i \in 1..Len(a) |-> FAbs(a[i])])
VZero(n)     == [i \in 1..n |-> 0]
AllFin(a)    == \A i \in 1..Len(a) : FIsFin(a[i])
=============================================================================
