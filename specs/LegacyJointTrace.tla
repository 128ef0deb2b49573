--------------------------- MODULE LegacyJointTrace ---------------------------
EXTENDS LegacyJoint, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, t
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
NameAt(u, v) == IF v <= u.n0 THEN "p" \o ToString(v - 1)
                ELSE LET w == Width(u)  i == (v - u.n0 - 1) \div w  p == (v - u.n0 - 1) % w
                         k == CHOOSE k \in DOMAIN u.cols : p >= Before(u, k) /\ p < Before(u, k) + u.cols[k]
                     IN Prefix[k] \o "_" \o ToString(i) \o "_" \o ToString(p - Before(u, k))
Step ==
  CASE E.e = "new" -> /\ t' = E.t
         /\ Clause("layout", E.idx = Index(E.t)) /\ Clause("names", E.names = [v \in 1..NVars(E.t) |-> NameAt(E.t, v)])
         /\ Clause("refused", E.threw = Short(E.t))
         /\ Clause("variables", E.threw \/ Rng(E.own) = {VarAt(E.t, E.t.k, i, j) : i \in 1..E.t.r, j \in 1..Dof(E.t)})
    [] E.e = "look" -> /\ t' = t
         /\ IF t.cost THEN Clause("cost", E.val = CostOf(t, E.x)) /\ Clause("model of the cost", ModelOK(t, E.x, E))
            ELSE /\ Clause("kind", E.iseq = t.eq) /\ Clause("violations", ViolOK(t, E.x, E.viol) /\ E.tot = Sum(E.viol)) /\ Clause("rows", RowsOK(t, E.x, E))
         /\ Clause("nothing left", E.left = 0 /\ E.foreign = 0)
    [] E.e = "array" -> /\ t' = t
         /\ Clause("blocks", /\ E.block = Block(E.a, E.i, E.j, E.n, E.m) /\ E.rblock = Block(E.a, E.i, E.j, 1, E.m)[1]
                             /\ E.cblock = [p \in 1..E.n |-> E.a[E.i + p][E.j + 1]])
         /\ Clause("rows of an array", /\ E.mid = Block(E.a, E.i, 0, E.n, Wide(E.a)) /\ E.top = Block(E.a, 0, 0, E.n, Wide(E.a))
                                       /\ E.bot = Block(E.a, Len(E.a) - E.n, 0, E.n, Wide(E.a)))
         /\ Clause("row and column", E.row = E.a[E.i + 1] /\ E.col = [p \in DOMAIN E.a |-> E.a[p][E.j + 1]] /\ E.flat = Flat(E.a) /\ E.tv = Flat(E.a))
         /\ Clause("expressions", E.ev = [p \in DOMAIN E.exprs |-> [q \in DOMAIN E.exprs[p] |-> ExprAt(E.exprs[p][q], E.x)]])
    [] E.e = "names" -> /\ t' = t /\ Clause("superset", SuperOK(E.sup, E.sub, E.super)) /\ Clause("get", GetOK(E.sup, E.sv, E.sub, E.gok, E.got))
         /\ Clause("put", PutOK(E.sup, E.sv, E.sub, E.bv, E.uok, E.upd))
TInit == l = 1 /\ t = [k |-> 0]
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, t>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
