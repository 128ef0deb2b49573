---------------------------- MODULE LayoutTrace ----------------------------
EXTENDS Layout, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, hash
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
N == Len(s.x)
\* a value vector has one hash and two different vectors have different ones
HashOK(x, h) == \A p \in hash : (p[1] = x) <=> (p[2] = h)
\* observers are told after the variables have changed, each once
NotedOK == Clause("observers", {E.noted[i][1] : i \in DOMAIN E.noted} = s.obs /\ Len(E.noted) = Cardinality(s.obs)
                               /\ \A i \in DOMAIN E.noted : E.noted[i][2] = s'.x)
Step ==
  CASE E.e = "new" -> s' = New(E.ns, E.x, E.lo, E.hi) /\ hash' = {}
    [] E.e = "bad" -> Clause("refused", E.thrown) /\ UNCHANGED <<s, hash>>
    [] E.e = "look" -> Clause("look", LookOK(s, E)) /\ Clause("hash", HashOK(E.x, E.hash)) /\ hash' = hash \cup {<<E.x, E.hash>>} /\ s' = s
    [] E.e = "set" -> s' = SetX(s, E.x) /\ NotedOK /\ UNCHANGED hash
    [] E.e = "obs" -> s' = [s EXCEPT !.obs = @ \cup {E.id}] /\ Clause("observer made", E.made) /\ UNCHANGED hash
    [] E.e = "unobs" -> s' = [s EXCEPT !.obs = @ \ {E.id}] /\ UNCHANGED hash
    \* composites
    [] E.e = "add" -> s' = [s EXCEPT !.col = Append(@, E.c)] /\ UNCHANGED hash
    [] E.e = "clear" -> s' = [s EXCEPT !.col = <<>>] /\ UNCHANGED hash
    [] E.e = "stack" -> Clause("stack", StackOK(Rows(s.col, s.x), s.x, E) /\ E.upd = E.n) /\ Clause("components", E.names = [i \in DOMAIN s.col |-> s.col[i].name] /\ E.byname /\ E.empty = (s.col = <<>>)) /\ UNCHANGED <<s, hash>>
    \* problem
    [] E.e = "addcnt" -> s' = [s EXCEPT !.cnt = Append(@, E.c)] /\ UNCHANGED hash
    [] E.e = "addcost" -> s' = [s EXCEPT !.cost = Append(@, E.c)] /\ UNCHANGED hash
    [] E.e = "save" -> s' = Save(s) /\ Clause("iterations", E.n = Len(s.saved) + 1) /\ UNCHANGED hash
    [] E.e = "recall" -> s' = SetX(s, s.saved[E.i + 1]) /\ NotedOK /\ UNCHANGED hash
    [] E.e = "final" -> s' = SetX(s, s.saved[Len(s.saved)]) /\ NotedOK /\ UNCHANGED hash
    [] E.e = "prob" -> LET rs == Rows(s.cnt, s.x) cs == Rows(s.cost, s.x) IN
         /\ Clause("constraints", StackOK(rs, s.x, E.cnt)) /\ Clause("count", E.ncnt = Len(rs) /\ E.nvar = N)
         /\ Clause("cost rows", StackOK(cs, s.x, E.cost)) /\ Clause("cost", E.total = Sum([i \in DOMAIN cs |-> Val(cs[i], s.x)]) /\ E.has = (Len(cs) > 0))
         /\ Clause("gradient", E.grad = AddUp(cs, N)) /\ Clause("variables", E.x = s.x /\ E.lo = s.lo /\ E.hi = s.hi)
         /\ Clause("nonzeros", E.nz = Cat([i \in DOMAIN rs |-> SelectSeq(rs[i].a, LAMBDA v : v # 0)]))
         /\ Clause("history", E.saved = s.saved) /\ UNCHANGED <<s, hash>>
TInit == l = 1 /\ s = New(<<>>, <<>>, <<>>, <<>>) /\ hash = {}
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, s, hash>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
