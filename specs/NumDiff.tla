------------------------------ MODULE NumDiff ------------------------------
\* Numerical differentiation (C19). Points are integer vectors in half steps (h = epsilon / 2). A function is known
\* by the table T of the values it returned: point -> sequence of rows.
EXTENDS Integers, Sequences, FiniteSets
Unit(n, i, k) == [j \in 1..n |-> IF j = i THEN k ELSE 0]
At(x, d) == [j \in 1..Len(x) |-> x[j] + d[j]]
Step1(x, i, k) == At(x, Unit(Len(x), i, k))
Forward(x) == {x} \cup {Step1(x, i, 2) : i \in 1..Len(x)}
Central(x) == {x} \cup {Step1(x, i, k) : i \in 1..Len(x), k \in {-1, 1}}
Second(x) == UNION {Forward(y) : y \in Forward(x)}
\* derivative of row r in direction i, times epsilon
FwdD(T, x, r, i) == T[Step1(x, i, 2)][r] - T[x][r]
CenD(T, x, r, i) == T[Step1(x, i, 1)][r] - T[Step1(x, i, -1)][r]
\* second derivatives: times epsilon^2 / 4 (central), times 2 epsilon^2 (nested forward, symmetrised)
CenH(T, x, r, i) == T[Step1(x, i, 1)][r] + T[Step1(x, i, -1)][r] - 2 * T[x][r]
Nest(T, x, r, i, j) == (T[Step1(Step1(x, j, 2), i, 2)][r] - T[Step1(x, j, 2)][r]) - (T[Step1(x, i, 2)][r] - T[x][r])
NestH(T, x, r, i, j) == Nest(T, x, r, i, j) + Nest(T, x, r, j, i)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* the same table with all rows added up: the value of a problem's cost
Total(T) == [p \in DOMAIN T |-> <<Sum(T[p])>>]
=============================================================================
