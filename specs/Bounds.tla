------------------------------ MODULE Bounds ------------------------------
\* Intervals, their classification, and the measures of a value against an interval (C09).
\* Numbers are integers in units the driver chooses; INF / -INF stand for anything at least 1e20 in size.
EXTENDS Integers, Sequences
CONSTANTS EqTol      \* limits closer than this (in units) make an equality
INF == 1000000000
Abs(a) == IF a < 0 THEN -a ELSE a
Finite(a) == -INF < a /\ a < INF
Plus(a, d) == IF ~Finite(a) THEN a ELSE IF ~Finite(d) THEN d ELSE a + d
Kind(lo, hi) ==
  CASE ~Finite(lo) /\ ~Finite(hi) -> "free"
    [] Finite(lo) /\ ~Finite(hi) -> "lower"
    [] ~Finite(lo) /\ Finite(hi) -> "upper"
    [] OTHER -> IF Abs(hi - lo) < EqTol THEN "eq" ELSE "range"
\* one interval object: what every operation leaves
Op(b, o) ==
  CASE o.op = "set" -> [lo |-> o.a, hi |-> o.b]
    [] o.op = "lo" -> [b EXCEPT !.lo = o.a]
    [] o.op = "hi" -> [b EXCEPT !.hi = o.a]
    [] o.op = "add" -> [lo |-> Plus(b.lo, o.a), hi |-> Plus(b.hi, o.a)]
    [] o.op = "sub" -> [lo |-> Plus(b.lo, -o.a), hi |-> Plus(b.hi, -o.a)]
\* measures
Inside(x, b) == b.lo <= x /\ x <= b.hi
Err(x, b) == IF x < b.lo THEN x - b.lo ELSE IF x > b.hi THEN x - b.hi ELSE 0
Viol(x, b) == Abs(Err(x, b))
Close(x, b) == IF x < b.lo THEN b.lo ELSE IF x > b.hi THEN b.hi ELSE x
\* a state on the line from s to e, times (n - 1)
Lerp(s, e, n, i) == s * (n - 1 - i) + e * i
=============================================================================
