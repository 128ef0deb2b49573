--------------------------- MODULE TimedTermsTrace ---------------------------
EXTENDS TimedTerms, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
Step ==
  CASE E.e = "timed" -> /\ Clause("value of the timed term", TermOK(E.t, E.y, E)) /\ Clause("Jacobian of the timed term", SlopeOK(E.t, E.y, E))
    [] E.e = "sing" -> LET q == TLCEval(SubOf(E.sup, E.sub, E.x)) IN
         /\ Clause("nearness of a singularity", E.links /\ E.val = <<Nearness(E.w, q)>>)
         /\ Clause("Jacobian of the nearness", Len(E.jac) = 1 /\ Len(E.jac[1]) = Len(E.sup) /\ (Defined(E.w, q) => E.jac = <<Spread(E.sup, E.sub, Pull(E.w, q))>>))
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_l
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
