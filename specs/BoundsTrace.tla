---------------------------- MODULE BoundsTrace ----------------------------
EXTENDS Bounds, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
Same == E.lo = b'.lo /\ E.hi = b'.hi /\ E.kind = Kind(b'.lo, b'.hi)
B(i) == [lo |-> E.lo[i], hi |-> E.hi[i]]
Step ==
  CASE E.e = "new" -> b' = [lo |-> E.a, hi |-> E.b] /\ Clause("new", Same)
    [] E.e = "op" -> b' = Op(b, E.o) /\ Clause("op", Same)
    \* vectors: values x, intervals (lo, hi) made from plain limits
    [] E.e = "vec" -> /\ b' = b
         /\ Clause("limits", E.lo = E.glo /\ E.hi = E.ghi /\ E.lo = E.glo2 /\ E.hi = E.ghi2)
         /\ Clause("kinds", \A i \in DOMAIN E.x : E.kinds[i] = Kind(E.lo[i], E.hi[i]))
         /\ Clause("viol", Len(E.viol) = Len(E.x) /\ \A i \in DOMAIN E.x : E.viol[i] = Viol(E.x[i], B(i)))
         /\ Clause("err", Len(E.err) = Len(E.x) /\ \A i \in DOMAIN E.x : E.err[i] = Err(E.x[i], B(i)))
         /\ Clause("close", Len(E.close) = Len(E.x) /\ \A i \in DOMAIN E.x : E.close[i] = Close(E.x[i], B(i)))
    [] E.e = "lerp" -> /\ b' = b
         /\ Clause("steps", Len(E.p) = E.n)
         /\ Clause("lerp", \A i \in 1..E.n : Len(E.p[i]) = Len(E.s) /\ \A j \in DOMAIN E.s : E.p[i][j] = Lerp(E.s[j], E.t[j], E.n, i - 1))
TInit == l = 1 /\ b = [lo |-> 0, hi |-> 0]
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, b>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
