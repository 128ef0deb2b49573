------------------------------- MODULE Expr -------------------------------
\* Affine and quadratic expressions and their arithmetic (C14).
\* An expression as the code holds it: [c, a, q]: constant, affine terms <<k, i>>, quadratic terms <<k, i, j>>,
\* variables 0-based, repeated terms allowed. Its meaning is its normal form: the coefficient of every monomial.
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Abs(k) == IF k < 0 THEN -k ELSE k
One == <<-1, -1>>
Mons(n) == {One} \cup {<<-1, i>> : i \in 0..(n - 1)} \cup {<<i, j>> \in (0..(n - 1)) \X (0..(n - 1)) : i <= j}
AffCoef(e, i) == Sum([t \in DOMAIN e.a |-> IF e.a[t][2] = i THEN e.a[t][1] ELSE 0])
QuadCoef(e, i, j) == Sum([t \in DOMAIN e.q |-> IF (e.q[t][2] = i /\ e.q[t][3] = j) \/ (e.q[t][2] = j /\ e.q[t][3] = i) THEN e.q[t][1] ELSE 0])
NF(e, n) == [m \in Mons(n) |-> IF m = One THEN e.c ELSE IF m[1] = -1 THEN AffCoef(e, m[2]) ELSE QuadCoef(e, m[1], m[2])]
\* value of a raw expression, term by term, and of a normal form, at a point (x[i + 1] is variable i)
EvalRaw(e, x) == e.c + Sum([t \in DOMAIN e.a |-> e.a[t][1] * x[e.a[t][2] + 1]])
                     + Sum([t \in DOMAIN e.q |-> e.q[t][1] * x[e.q[t][2] + 1] * x[e.q[t][3] + 1]])
RECURSIVE SumOver(_, _, _)
MonVal(m, x) == IF m = One THEN 1 ELSE IF m[1] = -1 THEN x[m[2] + 1] ELSE x[m[1] + 1] * x[m[2] + 1]
SumOver(f, S, x) == IF S = {} THEN 0 ELSE LET m == CHOOSE m \in S : TRUE IN f[m] * MonVal(m, x) + SumOver(f, S \ {m}, x)
Eval(f, x) == SumOver(f, DOMAIN f, x)
\* ---- arithmetic of meanings
NAdd(f, g) == [m \in DOMAIN f |-> f[m] + g[m]]
NSub(f, g) == [m \in DOMAIN f |-> f[m] - g[m]]
NScale(f, k) == [m \in DOMAIN f |-> k * f[m]]
NMul(f, g) == [m \in DOMAIN f |-> IF m = One THEN f[One] * g[One]
                 ELSE IF m[1] = -1 THEN f[One] * g[m] + f[m] * g[One]
                 ELSE LET fi == f[<<-1, m[1]>>] gi == g[<<-1, m[1]>>] fj == f[<<-1, m[2]>>] gj == g[<<-1, m[2]>>] IN
                      IF m[1] = m[2] THEN fi * gi ELSE fi * gj + fj * gi]
IsAff(f) == \A m \in DOMAIN f : m[1] = -1 \/ f[m] = 0
Apply(f, k, X, Y) == CASE f = "copy" -> X [] f = "scale" -> NScale(X, k) [] f = "add" -> NAdd(X, Y) [] f = "sub" -> NSub(X, Y)
                       [] f = "mul" -> NMul(X, Y) [] f = "square" -> NMul(X, X)
\* ---- the constructions on terms
Zero == [c |-> 0, a |-> <<>>, q |-> <<>>]
TAdd(e, d) == [c |-> e.c + d.c, a |-> e.a \o d.a, q |-> e.q \o d.q]
TScale(e, k) == [c |-> k * e.c, a |-> [t \in DOMAIN e.a |-> <<k * e.a[t][1], e.a[t][2]>>], q |-> [t \in DOMAIN e.q |-> <<k * e.q[t][1], e.q[t][2], e.q[t][3]>>]]
TSub(e, d) == TAdd(e, TScale(d, -1))
TMul(e, d) == LET p == Len(d.a) IN
  [c |-> e.c * d.c,
   a |-> [t \in 1..(Len(e.a) + p) |-> IF t <= Len(e.a) THEN <<d.c * e.a[t][1], e.a[t][2]>> ELSE <<e.c * d.a[t - Len(e.a)][1], d.a[t - Len(e.a)][2]>>],
   q |-> [t \in 1..(Len(e.a) * p) |-> LET i == ((t - 1) \div p) + 1 j == ((t - 1) % p) + 1 IN <<e.a[i][1] * d.a[j][1], e.a[i][2], d.a[j][2]>>]]
TApply(f, k, X, Y) == CASE f = "copy" -> X [] f = "scale" -> TScale(X, k) [] f = "add" -> TAdd(X, Y) [] f = "sub" -> TSub(X, Y)
                       [] f = "mul" -> TMul(X, Y) [] f = "square" -> TMul(X, X)
\* ---- clean-up: exactly the terms above the threshold stay (coefficients in units of 2^-30, threshold 1e-7)
Small(k) == Abs(k) <= 107
CleanOK(e, o, n) == /\ o.c = e.c /\ o.q = <<>>
                    /\ \A i \in 0..(n - 1) : AffCoef(o, i) = Sum([t \in DOMAIN e.a |-> IF e.a[t][2] = i /\ ~Small(e.a[t][1]) THEN e.a[t][1] ELSE 0])
                    /\ \A t \in DOMAIN o.a : ~Small(o.a[t][1])
\* ---- the SQP solver's matrix expressions. M[r][c], vectors as sequences
Dot(u, v) == Sum([i \in DOMAIN u |-> u[i] * v[i]])
QForm(H, v) == Sum([i \in DOMAIN v |-> v[i] * Dot(H[i], v)])
Diff(y, x) == [i \in DOMAIN y |-> y[i] - x[i]]
\* first order at x0, value at y
AffAt(f, J, x0, y) == [r \in DOMAIN f |-> f[r] + Dot(J[r], Diff(y, x0))]
\* twice the second-order model
QuadAt2(f, J, H, x0, y) == [r \in DOMAIN f |-> 2 * f[r] + 2 * Dot(J[r], Diff(y, x0)) + QForm(H[r], Diff(y, x0))]
SquareAt(c, A, w, y) == [r \in DOMAIN c |-> w[r] * (c[r] + Dot(A[r], y)) * (c[r] + Dot(A[r], y))]
=============================================================================
