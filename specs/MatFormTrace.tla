--------------------------- MODULE MatFormTrace ---------------------------
EXTENDS MatForm, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
AV(x) == {x.a[t][2] : t \in DOMAIN x.a}
Step ==
  CASE E.e = "aff" -> /\ Clause("refusal", E.thrown = Beyond(AV(E.x), E.nv)) /\ (~E.thrown => Clause("vector", VecOK(E.x, E.nv, E.v)))
    [] E.e = "quad" -> /\ Clause("refusal", E.thrown = Beyond(Vars(E.x), E.nv))
         /\ (~E.thrown => /\ Clause("matrix", SymOK(E.x, E.nv, E.halved, E.M2)) /\ Clause("vector", VecOK(E.x, E.nv, E.v))
                          /\ Clause("diagonal", E.diag => \A i \in 1..E.nv : E.ds[i] = 1))
    [] E.e = "rows" -> /\ Clause("refusal", E.thrown = \E r \in DOMAIN E.xs : Beyond(AV(E.xs[r]), E.nv))
         /\ (~E.thrown => Clause("rows", RowsOK(E.xs, E.nv, E.M, E.v) /\ E.mr = Len(E.xs) /\ E.mc = E.nv))
    [] E.e = "trip" -> Clause("triplets", TripOK(E.t, E.nr, E.nc, E.M) /\ Distinct(E.t))
    [] E.e = "untrip" -> Clause("from triplets", TripOK(E.t, E.nr, E.nc, E.M))
    [] E.e = "csc" -> Clause("csc", CscOK(E.ri, E.cp, E.v, E.nr, E.nc, E.up, E.M)) /\ Clause("input kept", E.left = E.M)
    [] E.e = "simp" -> Clause("simplify", SimpOK(E.i0, E.v0, E.i1, E.v1))
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_l
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
