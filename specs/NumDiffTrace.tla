---------------------------- MODULE NumDiffTrace ----------------------------
\* Each event is one call: op, point x, table of evaluations (pairs point, rows), result d (and y, h).
EXTENDS NumDiff, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, vars
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
Pt == {E.t[i][1] : i \in DOMAIN E.t}
T == [p \in Pt |-> E.t[CHOOSE i \in DOMAIN E.t : E.t[i][1] = p][2]]
N == Len(E.x)
M == E.m
Grad(D) == Len(E.d) = N /\ \A i \in 1..N : E.d[i] = D[i]
JacIs == Len(E.d) = M /\ \A r \in 1..M : Len(E.d[r]) = N /\ \A i \in 1..N : E.d[r][i] = FwdD(T, E.x, r, i)
TotalGrad == LET S == Total(T) IN Grad([i \in 1..N |-> FwdD(S, E.x, 1, i)])
Kept == Clause("point", E.after = E.x)
Same == vars' = vars /\ Clause("variables restored", E.vars = vars)
Empty == \A r \in DOMAIN E.d : \A i \in DOMAIN E.d[r] : E.d[r][i] = 0
Step ==
  CASE E.e = "new" -> vars' = E.x
    [] E.e = "set" -> vars' = E.x /\ Clause("set", E.vars = E.x)
    [] E.e = "fgrad" -> Kept /\ Clause("points", Pt = Forward(E.x)) /\ Clause("grad", Grad([i \in 1..N |-> FwdD(T, E.x, 1, i)])) /\ UNCHANGED vars
    [] E.e = "fjac" -> Kept /\ Clause("points", Pt = Forward(E.x)) /\ Clause("jac", JacIs) /\ UNCHANGED vars
    [] E.e = "diag" -> /\ Kept /\ Clause("points", Pt = Central(E.x)) /\ Clause("y", E.y = T[E.x][1]) /\ UNCHANGED vars
                       /\ Clause("grad", Grad([i \in 1..N |-> CenD(T, E.x, 1, i)]))
                       /\ Clause("hess", Len(E.h) = N /\ \A i \in 1..N : E.h[i] = CenH(T, E.x, 1, i))
    [] E.e = "full" -> /\ Kept /\ Clause("points", Pt = Second(E.x)) /\ Clause("y", E.y = T[E.x][1]) /\ UNCHANGED vars
                       /\ Clause("grad", Grad([i \in 1..N |-> FwdD(T, E.x, 1, i)]))
                       /\ Clause("hess", Len(E.h) = N /\ \A i \in 1..N : Len(E.h[i]) = N /\ \A j \in 1..N : E.h[i][j] = NestH(T, E.x, 1, i, j))
    \* through a Problem: at a given point (pcost, pcnt) or at the current variables (pgrad, vcnt)
    [] E.e = "pcost" -> /\ Same /\ Kept /\ (M > 0 => Clause("points", Pt = Forward(E.x)))
                        /\ Clause("grad", IF M > 0 THEN TotalGrad ELSE Grad([i \in 1..N |-> 0]))
    [] E.e = "pgrad" -> /\ Same /\ Clause("point is current", E.x = vars) /\ (M > 0 => Clause("points", Pt = Forward(E.x)))
                        /\ Clause("grad", IF M > 0 THEN TotalGrad ELSE Grad([i \in 1..N |-> 0]))
    [] E.e = "pcnt" -> Same /\ Kept /\ (M > 0 => Clause("points", Pt = Forward(E.x)) /\ Clause("jac", JacIs))
    [] E.e = "vcnt" -> /\ Same /\ Clause("point is current", E.x = vars)
                       /\ IF E.bounded /\ M > 0 THEN Clause("points", Pt = Forward(E.x)) /\ Clause("jac", JacIs)
                            \* the constraint set again stands at the variables
                            /\ Clause("constraint set restored", E.at = vars)
                          ELSE Clause("empty", Empty)
TInit == l = 1 /\ vars = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, vars>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
