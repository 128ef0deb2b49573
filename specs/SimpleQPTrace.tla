--------------------------- MODULE SimpleQPTrace ---------------------------
\* Recorded calls of an IfoptQPProblem.
EXTENDS SimpleQP, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Strict == IOEnv.STRICT = "1"
VARIABLES l, s
E == Trace[l]
Rec(p) == [nm \in {p[i][1] : i \in DOMAIN p} |-> p[CHOOSE i \in DOMAIN p : p[i][1] = nm][2]]
MuOK(m) == {m[i][1] : i \in DOMAIN m} = Cnts(s) /\ Len(m) = Cardinality(Cnts(s))
Qp == [n |-> s.n, nv |-> E.nv, nc |-> E.nc, H |-> E.H, g |-> E.g, A |-> E.A, l |-> E.l, u |-> E.u]
\* C06 judges only the values, not the QP
Focus == IF "FOCUS" \in DOMAIN IOEnv THEN IOEnv.FOCUS ELSE "C07"
Clause(nm, ok) == IF Focus = "C06" /\ nm \in {"shape", "model", "bounds", "box"} THEN TRUE ELSE IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
Y == {E.ys[i] : i \in DOMAIN E.ys}
Step ==
  CASE E.e = "add" -> Clause("refusal", E.ok = ~Refused(E.t)) /\ s' = IF E.ok THEN AddS(s, E.t) ELSE s
    [] E.e = "setup" -> Clause("setup", E.ok = ~SetupRefused(s)) /\ s' = IF E.ok THEN SetupT(s) ELSE s
    [] E.e = "set" -> s' = SetX(s, E.x)
    [] E.e = "conv" -> s' = Conv(s)
    [] E.e = "box" -> s' = SetBox(s, E.b)
    [] E.e = "scale" -> s' = Scale(s, E.num, E.den)
    [] E.e = "coef" -> Clause("coef", MuOK(E.mu)) /\ s' = SetMu(s, Rec(E.mu))
    [] E.e = "qp" -> /\ s.conv /\ Clause("shape", QPShapeOK(s, Qp)) /\ Clause("model", QPModelOK(s, Qp, Y) \/ (~Strict /\ Means(Qp, Deviant(s.ts), s.muq, s.lin, Y)))
                     /\ Clause("bounds", QPBoundsOK(s, Qp)) /\ s' = s
    [] E.e = "look" -> /\ Clause("names", NamesOK(s, E)) /\ Clause("exact", ExactOK(s, E)) /\ Clause("variables", E.x = s.x)
                       /\ Clause("box", E.box = s.box) /\ Clause("coefs", MuOK(E.mu) /\ Rec(E.mu) = s.mu) /\ s' = s
    [] E.e = "cvx" -> Clause("convex", ConvexOK(s, E.cn, E.vn, E.y, E.c, E.v, E.tot) \/ (~Strict /\ DeviantOK(s, E.cn, E.vn, E.y, E.c, E.v, E.tot))) /\ s' = s
TInit == l = 1 /\ s = New(0, <<>>, <<>>, <<>>)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ IF E.e = "new" THEN s' = New(E.n, E.lo, E.hi, E.x) ELSE Step
TSpec == TInit /\ [][TNext]_<<l, s>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
