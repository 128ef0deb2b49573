----------------------------- MODULE ExprTrace -----------------------------
EXTENDS Expr, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n, reg
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
Regs == {"a0", "a1", "a2", "q0", "q1"}
AllNF(rs, k) == [r \in Regs |-> NF(rs[r], k)]
Opnd(r, lit) == IF r = "" THEN NF(lit, n) ELSE reg[r]
Expect == LET X == Opnd(E.xr, E.x) Y == Opnd(E.yr, E.y) IN
  [r \in Regs |-> IF r = E.d THEN Apply(E.f, E.k, X, Y) ELSE IF r = E.gone THEN NF(Zero, n) ELSE reg[r]]
Bisum(v, w) == [i \in DOMAIN v |-> v[i] + w[i]]
Step ==
  CASE E.e = "new" -> n' = E.n /\ reg' = AllNF(E.regs, E.n)
    [] E.e = "op" -> /\ n' = n /\ reg' = Expect
         /\ Clause("result", \A r \in Regs : NF(E.regs[r], n) = Expect[r])
         /\ Clause("affine", \A r \in {"a0", "a1", "a2"} : E.regs[r].q = <<>>)
         /\ Clause("value", \A r \in Regs : E.vals[r] = Eval(Expect[r], E.at) /\ E.valp[r] = E.vals[r])
    [] E.e = "clean" -> /\ UNCHANGED <<n, reg>> /\ Clause("cleanup", CleanOK(E.x, E.o, E.n))
    [] E.e = "aff" -> /\ UNCHANGED <<n, reg>>
         /\ Clause("linear part", E.lin = E.J)
         /\ Clause("linear model", \A i \in DOMAIN E.ys : E.vs[i] = AffAt(E.f, E.J, E.x0, E.ys[i]))
    [] E.e = "square" -> /\ UNCHANGED <<n, reg>>
         /\ Clause("square", \A i \in DOMAIN E.ys : E.vs[i] = SquareAt(E.c, E.A, E.w, E.ys[i]))
         /\ Clause("row constants", E.qc = [r \in DOMAIN E.c |-> E.w[r] * E.c[r] * E.c[r]])
         /\ Clause("row linear", \A r \in DOMAIN E.c : \A j \in DOMAIN E.ol : E.ql[r][j] = 2 * E.w[r] * E.c[r] * E.A[r][j])
         /\ Clause("sum linear", \A j \in DOMAIN E.ol : E.ol[j] = Sum([r \in DOMAIN E.c |-> 2 * E.w[r] * E.c[r] * E.A[r][j]]))
         /\ Clause("sum quadratic", \A i, j \in DOMAIN E.ol : E.oq[i][j] + E.oq[j][i] = Sum([r \in DOMAIN E.c |-> 2 * E.w[r] * E.A[r][i] * E.A[r][j]]))
    [] E.e = "quad" -> /\ UNCHANGED <<n, reg>>
         /\ Clause("quadratic model", \A i \in DOMAIN E.ys : E.vs[i] = QuadAt2(E.f, E.J, E.H, E.x0, E.ys[i]))
TInit == l = 1 /\ n = 0 /\ reg = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, n, reg>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
