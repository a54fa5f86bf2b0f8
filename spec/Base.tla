-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* Shared helpers.  Observations are JSON-like values; an exception raised *)
(* by the code is the observation Err.  Conforms compares an expected and  *)
(* an observed value of possibly different types without a TLC error.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Err == [err |-> TRUE]
(* comparing a value with itself normalizes it (order of record fields) *)
Conforms(out, ob) == out = out /\ ob = ob /\ ToString(out) = ToString(ob)
IsErr(ob) == ToString(ob) = ToString(Err)

ToSet(s) == {s[i] : i \in 1..Len(s)}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* fixed-point comparison of nested sequences, tol units *)
Near1(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A i \in 1..Len(a) : LET d == a[i] - b[i] IN d <= tol /\ -d <= tol
Near2(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near1(a[i], b[i], tol)
Near3(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near2(a[i], b[i], tol)

QuotS(a, g) == IF a < 0 THEN -((-a) \div g) ELSE a \div g
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
SumSeq(s) == SumTo(s, Len(s))

Const(n, v) == [i \in 1..n |-> v]
Zeros(n) == Const(n, 0)

(* prefix of length n of s, zero-extended *)
Fit(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]

Exact(num, den) == IF num % den = 0 THEN num \div den
                   ELSE Assert(FALSE, <<"inexact division", num, den>>)
ExactZ(num, den) == IF den < 0 THEN Exact(-num, -den) ELSE Exact(num, den)

=============================================================================
