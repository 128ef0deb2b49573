------------------------------ MODULE CartTrace ------------------------------
EXTENDS Cart, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, t
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
Unknown(u) == u.src < 0 \/ u.tgt < 0
Inverted(u) == Len(u.lo) # Len(u.up) \/ \E i \in DOMAIN u.lo : u.lo[i] > u.up[i]
Refused(u) ==
  CASE u.k = "pos" -> Unknown(u) \/ Len(u.co) # 6 \/ Len(u.bnd) # 6 \/ (~Active(u.w, u.src) /\ ~Active(u.w, u.tgt))
    [] u.k = "line" -> Unknown(u) \/ u.to = u.to2 \/ Len(u.idx) > 6 \/ u.idx = <<>> \/ Len(u.co) # Len(u.idx)
    [] u.k \in {"cart", "dyn"} -> Inverted(u)
    [] u.k = "ik" -> u.src < 0
    [] OTHER -> FALSE
FormOK(u) ==
  CASE u.k = "pos" -> LET R == RowsFrom(u, 1) IN
         /\ E.rows = Len(R) /\ E.co = [r \in DOMAIN R |-> R[r].co] /\ E.bnd = [r \in DOMAIN R |-> R[r].b]
    [] u.k = "line" -> E.rows = Len(u.idx) /\ E.co = u.co /\ E.bnd = [r \in DOMAIN u.idx |-> <<0, 0>>] /\ E.ends = <<u.to, u.to2>>
    [] u.k = "ik" -> LET n == Joints(u.w) IN E.rows = n /\ E.co = [r \in 1..n |-> 1] /\ E.bnd = [r \in 1..n |-> <<0, 0>>]
    [] OTHER -> TRUE
LookOK ==
  LET P == TLCEval(All(t.w, E.q)) IN
  CASE t.k = "pos" -> /\ Clause("pose error", ValueOK(t, P, E.val)) /\ Clause("slopes of the pose error", SlopesOK(t, P, E.jac, E.cols, E.at))
                      /\ Clause("poses told", E.cur = Then(At(P, t.src), t.so) /\ E.aim = t.to)
    [] t.k \in {"cart", "dyn"} -> Clause("pose error", ValueOK(t, P, E.val)) /\ Clause("slopes of the pose error", SlopesOK(t, P, E.jac, E.cols, E.at))
    [] t.k = "line" -> /\ Clause("distance from the line", LineValueOK(t, P, E.val))
                       /\ Clause("slopes of the distance from the line", LineSlopesOK(t, P, E.jac, E.cols, E.at))
    [] t.k = "vel" -> LET Q == TLCEval(All(t.w, E.q2)) IN
                      /\ Clause("displacement", E.val = CartVel(t, P, Q)) /\ Clause("slopes of the displacement", E.jac = CartVelSlope(t, P, Q))
    [] OTHER -> /\ Clause("asked", E.asked = <<[pose |-> t.to, frame |-> t.frame, tip |-> t.src, seed |-> E.seed]>>)
                /\ Clause("nearest solution", NearestOK(E.sols, E.q, E.val))
                /\ Clause("slopes of the joint distance", E.jac = [r \in DOMAIN E.q |-> [v \in 1..E.cols |-> IF v = E.at + r - 1 THEN -1 ELSE 0]])
Step ==
  CASE E.e = "new" -> /\ t' = E.t /\ Clause("refused", E.threw = Refused(E.t)) /\ (E.threw \/ Clause("form", FormOK(E.t)))
    [] E.e = "aim" -> t' = [t EXCEPT !.to = E.to]
    [] E.e = "bnds" -> t' = t /\ Clause("bounds", E.got = E.put)
    [] E.e = "look" -> t' = t /\ LookOK
TInit == l = 1 /\ t = [k |-> "none"]
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, t>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
