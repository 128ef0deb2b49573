------------------------------- MODULE Joint -------------------------------
\* Finite-difference terms over a trajectory (C10).
\* A term: order o in 0..3, d joints, ns: columns (0-based) of the joints' first entry at each of its time steps,
\* and per joint a target or an interval [lo, hi] with a coefficient w.
EXTENDS Integers, Sequences, FiniteSets
INF == 1000000000
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Stencil(o) == CASE o = 0 -> <<1>> [] o = 1 -> <<-1, 1>> [] o = 2 -> <<1, -2, 1>> [] OTHER -> <<-1, 3, -3, 1>>
Steps(o, n) == IF o = 1 THEN n - 1 ELSE n
\* first time step (0-based) the difference at step i uses: forward, and backward where the trajectory ends
From(o, n, i) == IF i + o <= n - 1 THEN i ELSE i - o
\* coefficient of column c in row (step i, joint k), all 0-based
Deriv(t, i, k, c) == LET n == Len(t.ns) f == From(t.o, n, i) D == Stencil(t.o) IN
  Sum([j \in DOMAIN D |-> IF t.ns[f + j] + k = c THEN D[j] ELSE 0])
Value(t, x, i, k) == LET n == Len(t.ns) f == From(t.o, n, i) D == Stencil(t.o) IN
  Sum([j \in DOMAIN D |-> D[j] * x[t.ns[f + j] + k + 1]])
NRows(t) == Steps(t.o, Len(t.ns)) * t.d
StepOf(t, r) == (r - 1) \div t.d
JointOf(t, r) == (r - 1) % t.d
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* ---- what the term must report (rows in step-major order)
ValuesOK(t, x, v) == Len(v) = NRows(t) /\ \A r \in 1..NRows(t) : v[r] = Value(t, x, StepOf(t, r), JointOf(t, r))
JacOK(t, nx, J) == Len(J) = NRows(t) /\ \A r \in 1..NRows(t) : Len(J[r]) = nx /\ \A c \in 1..nx : J[r][c] = Deriv(t, StepOf(t, r), JointOf(t, r), c - 1)
LimitsOK(t, lo, hi) == Len(lo) = NRows(t) /\ Len(hi) = NRows(t) /\ \A r \in 1..NRows(t) : lo[r] = t.lo[JointOf(t, r) + 1] /\ hi[r] = t.hi[JointOf(t, r) + 1]
\* no coefficients given (0): the term chooses one positive coefficient for all its rows
Coef(t, o, k) == IF t.w[k] = 0 THEN o[1] ELSE t.w[k]
CoefOK(t, w) == Len(w) = NRows(t) /\ \A r \in 1..NRows(t) : w[r] > 0 /\ w[r] = Coef(t, w, JointOf(t, r) + 1)
\* ---- a position term whose two-sided intervals are split: judged by what it allows
TwoSided(t, k) == t.lo[k] > -INF /\ t.hi[k] < INF /\ t.hi[k] # t.lo[k]
RowsOf(t, nx, J, k) == {r \in 1..Len(J) : \A c \in 1..nx : J[r][c] = (IF c = t.ns[1] + k THEN 1 ELSE 0)}   \* k 1-based
SplitOK(t, nx, x, o) ==
  /\ Len(o.jac) = Sum([k \in 1..t.d |-> IF TwoSided(t, k) THEN 2 ELSE 1])
  /\ Len(o.val) = Len(o.jac) /\ Len(o.lo) = Len(o.jac) /\ Len(o.hi) = Len(o.jac) /\ Len(o.w) = Len(o.jac)
  /\ \A k \in 1..t.d : LET R == RowsOf(t, nx, o.jac, k) IN
       /\ Cardinality(R) = (IF TwoSided(t, k) THEN 2 ELSE 1)
       /\ \A r \in R : o.val[r] = x[t.ns[1] + k] /\ o.w[r] > 0 /\ o.w[r] = Coef(t, o.w, k) /\ (TwoSided(t, k) => (o.lo[r] = -INF \/ o.hi[r] = INF))
       /\ \A r \in R : o.lo[r] <= t.lo[k] /\ t.hi[k] <= o.hi[r]
       /\ (\E r \in R : o.lo[r] = t.lo[k]) /\ (\E r \in R : o.hi[r] = t.hi[k])
\* ---- cost wrappers around a term
ErrR(v, lo, hi) == IF v < lo THEN v - lo ELSE IF v > hi THEN v - hi ELSE 0
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
RowErr(t, x, r) == ErrR(Value(t, x, StepOf(t, r), JointOf(t, r)), t.lo[JointOf(t, r) + 1], t.hi[JointOf(t, r) + 1])
Squared(t, wt, x) == Sum([r \in 1..NRows(t) |-> wt[r] * RowErr(t, x, r) * RowErr(t, x, r)])
Absolute(t, wt, x) == Sum([r \in 1..NRows(t) |-> wt[r] * Abs(RowErr(t, x, r))])
SquaredD(t, wt, x, c) == Sum([r \in 1..NRows(t) |-> 2 * wt[r] * RowErr(t, x, r) * Deriv(t, StepOf(t, r), JointOf(t, r), c)])
AbsoluteD(t, wt, x, c) == Sum([r \in 1..NRows(t) |-> wt[r] * Sgn(RowErr(t, x, r)) * Deriv(t, StepOf(t, r), JointOf(t, r), c)])
=============================================================================
