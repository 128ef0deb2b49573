----------------------------- MODULE JointTrace -----------------------------
EXTENDS Joint, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, t
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
NX == Len(E.x)
Step ==
  CASE E.e = "new" -> t' = E.t
    [] E.e = "bad" -> t' = t /\ Clause("refused", E.thrown)
    [] E.e = "look" -> /\ t' = t /\ Clause("rows", E.n = Len(E.val) /\ E.upd = E.n)
         /\ IF t.split THEN Clause("split", SplitOK(t, NX, E.x, E))
            ELSE Clause("values", ValuesOK(t, E.x, E.val)) /\ Clause("jacobian", JacOK(t, NX, E.jac)) /\ Clause("limits", LimitsOK(t, E.lo, E.hi)) /\ Clause("coefficients", CoefOK(t, E.w))
    [] E.e = "cost" -> /\ t' = t
         /\ Clause("squared", E.sq = Squared(t, E.wt, E.x)) /\ Clause("absolute", E.ab = Absolute(t, E.wt, E.x))
         /\ Clause("squared gradient", E.dsq = [c \in 1..NX |-> SquaredD(t, E.wt, E.x, c - 1)])
         /\ Clause("absolute gradient", E.dab = [c \in 1..NX |-> AbsoluteD(t, E.wt, E.x, c - 1)])
         /\ Clause("one row", E.rows = 1)
TInit == l = 1 /\ t = [split |-> FALSE]
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, t>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
