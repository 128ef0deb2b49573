--------------------------- MODULE CollisionTrace ---------------------------
\* Recorded evaluations of the collision evaluators and looks at the collision constraints.
EXTENDS Collision, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, pat
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
\* which piece ends the motion: the last one; the contact library as used upstream is told that none does
Lasts == IF c.ev = 4 THEN LET n == Pieces(c, E.q0, E.q1) IN {n - 1, n} ELSE {0}
Step ==
  CASE E.e = "new" -> c' = E /\ pat' = None
    [] E.e = "eval" -> /\ c' = c /\ pat' = pat
         /\ Clause("asked", AskedOK(c, E))
         /\ Clause("kept", \E L \in Lasts : LET K == TLCEval(Kept(c, E.q0, E.q1, L, E.w)) IN KeptOK(K, E) /\ Clause("groups", SetsOK(c, K, E)))
         /\ Clause("worst first", WorstFirst(c, E))
    [] E.e = "con" -> /\ c' = c /\ pat' = E.pat
         /\ Clause("structure", StructureOK(c, pat, E))
         /\ Clause("rows", \E L \in Lasts : LET K == TLCEval(Kept(c, E.q0, E.q1, L, E.w)) IN
               IF c.kind = "CD" THEN ShapeOK(c, E, Len(K)) /\ EachOK(c, E, K) ELSE ShapeOK(c, E, c.maxc) /\ RowsOK(c, E, K))
TInit == l = 1 /\ c = [ev |-> 1] /\ pat = None
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, c, pat>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
