------------------------------ MODULE QPTrace ------------------------------
\* Recorded calls of a TrajOptQPProblem: the clauses whose name starts with FOCUS must hold.
EXTENDS QP, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES l, s
E == Trace[l]
Rec(p) == [nm \in {p[i][1] : i \in DOMAIN p} |-> p[CHOOSE i \in DOMAIN p : p[i][1] = nm][2]]
MuOK(m) == {m[i][1] : i \in DOMAIN m} = Cnts(s) /\ Len(m) = Cardinality(Cnts(s))
Qp == [n |-> s.n, nv |-> E.nv, nc |-> E.nc, H |-> E.H, g |-> E.g, A |-> E.A, l |-> E.l, u |-> E.u]
Clause(nm, ok) == IF SubSeq(nm, 1, 3) = Focus THEN (IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE) ELSE TRUE
Y == {E.ys[i] : i \in DOMAIN E.ys}
Qual == /\ Clause("C05.shape", QPShapeOK(s, Qp)) /\ Clause("C05.model", QPModelOK(s, Qp, Y)) /\ Clause("C05.bounds", QPBoundsOK(s, Qp))
Step ==
  CASE E.e = "add" -> Clause("C05.refusal", E.ok = KindOK(E.t)) /\ s' = IF E.ok THEN AddT(s, E.t) ELSE s
    [] E.e = "setup" -> s' = SetupT(s)
    [] E.e = "set" -> s' = SetX(s, E.x)
    [] E.e = "conv" -> s' = Conv(s)
    [] E.e = "box" -> s' = SetBox(s, E.b)
    [] E.e = "scale" -> s' = Scale(s, E.num, E.den)
    [] E.e = "coef" -> Clause("C05.coef", MuOK(E.mu)) /\ s' = SetMu(s, Rec(E.mu))
    [] E.e = "qp" -> s.conv /\ Qual /\ s' = s
    [] E.e = "look" -> /\ Clause("C06.names", NamesOK(s, E)) /\ Clause("C06.exact", ExactOK(s, E)) /\ Clause("C06.variables", E.x = s.x)
                       /\ Clause("C05.box", E.box = s.box) /\ Clause("C05.coefs", MuOK(E.mu) /\ Rec(E.mu) = s.mu) /\ s' = s
    [] E.e = "cvx" -> Clause("C06.convex", ConvexOK(s, E.cn, E.vn, E.y, E.c, E.v, E.tot)) /\ s' = s
TInit == l = 1 /\ s = New(0, <<>>, <<>>, <<>>)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ IF E.e = "new" THEN s' = New(E.n, E.lo, E.hi, E.x) ELSE Step
TSpec == TInit /\ [][TNext]_<<l, s>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
