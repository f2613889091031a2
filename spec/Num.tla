-------------------------------- MODULE Num --------------------------------
(* Integer arithmetic helpers.  All reals of the implementation reach the   *)
(* specification as scaled integers; BAD stands for NaN, infinities, and    *)
(* anything too large to be a plausible value.                              *)
EXTENDS Integers, Sequences, FiniteSets, Functions, TLC

BAD == 2000000000

Abs(x)      == IF x < 0 THEN -x ELSE x
Max2(a, b)  == IF a > b THEN a ELSE b
Min2(a, b)  == IF a < b THEN a ELSE b
MaxOf(S)    == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S)    == CHOOSE x \in S : \A y \in S : x <= y
CeilDiv(a, b) == -((-a) \div b)

Add(a, b)   == a + b
SumOn(f, S) == FoldFunctionOnSet(Add, 0, f, S)
SumSeq(s)   == FoldFunctionOnSet(Add, 0, s, DOMAIN s)


(* Is the scaled observation `out` within `tol` units of `want`? *)
Near(out, want, tol) == out # BAD /\ Abs(out - want) <= tol

(* Is `out` (scaled by `scale`) the rational num/den, or 0 if den = 0?  The  *)
(* quotient is floored, which costs one unit of the tolerance.               *)
NearRat(out, num, den, scale, tol) ==
    IF out = BAD THEN FALSE ELSE
    IF den = 0 THEN Abs(out) <= tol
               ELSE Abs(out - ((num * scale) \div den)) <= tol + 1

(* The integer square root: the largest r with r*r <= n, for 0 <= n < 2^31.  *)
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN IF m * m <= n THEN ISqrtIn(n, m, hi) ELSE ISqrtIn(n, lo, m - 1)
ISqrt(n) == ISqrtIn(n, 0, 46340)

(* Sort a finite set of integers into a sequence. *)
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o SortSet(S \ {m})

(* Clause helper: the name of a clause if it does not hold. *)
Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
