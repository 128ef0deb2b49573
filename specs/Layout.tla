------------------------------ MODULE Layout ------------------------------
\* Decision variables as nodes of named variables, and components stacked over them (C08).
\* ns: sequence of nodes, each [vs |-> sequence of variables [k |-> size]].
\* A row of a component: value c + a.x, limits lo, hi, coefficient w; a dynamic component shows row r only while
\* x[1] >= r.t at its last update. The problem adds up cost rows and stacks constraint rows.
EXTENDS Integers, Sequences, FiniteSets
INF == 1000000000
RECURSIVE Sum(_), Cat(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
NodeSize(nd) == Sum([i \in DOMAIN nd.vs |-> nd.vs[i].k])
\* offset (0-based) of a node and of a variable in it
NodeAt(ns, i) == Sum([j \in 1..(i - 1) |-> NodeSize(ns[j])])
VarAt(ns, i, v) == NodeAt(ns, i) + Sum([j \in 1..(v - 1) |-> ns[i].vs[j].k])
Dim(ns) == Sum([j \in DOMAIN ns |-> NodeSize(ns[j])])
Part(s, at, k) == SubSeq(s, at + 1, at + k)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* ---- whole session
New(ns, x, lo, hi) == [ns |-> ns, x |-> [i \in DOMAIN x |-> Clip(x[i], lo[i], hi[i])], lo |-> lo, hi |-> hi,
                       obs |-> {}, saved |-> <<>>, cnt |-> <<>>, cost |-> <<>>, col |-> <<>>]
SetX(s, x) == [s EXCEPT !.x = x]
Save(s) == [s EXCEPT !.saved = Append(@, s.x)]
\* ---- what a look at the variables must show
VarOK(s, i, v, o) ==
  LET at == VarAt(s.ns, i, v) k == s.ns[i].vs[v].k IN
  /\ o.at = at /\ o.k = k /\ o.x = Part(s.x, at, k) /\ o.lo = Part(s.lo, at, k) /\ o.hi = Part(s.hi, at, k)
  /\ o.id = s.ns[i].vs[v].id /\ o.names = s.ns[i].vs[v].names /\ o.mine /\ o.found
NodeOK(s, i, o) ==
  LET at == NodeAt(s.ns, i) k == NodeSize(s.ns[i]) IN
  /\ o.k = k /\ o.x = Part(s.x, at, k) /\ o.lo = Part(s.lo, at, k) /\ o.hi = Part(s.hi, at, k) /\ o.mine /\ o.name = s.ns[i].name
  /\ Len(o.vs) = Len(s.ns[i].vs) /\ \A v \in DOMAIN o.vs : VarOK(s, i, v, o.vs[v])
LookOK(s, o) == /\ o.x = s.x /\ o.lo = s.lo /\ o.hi = s.hi /\ o.dim = Dim(s.ns) /\ o.rows = Dim(s.ns)
                /\ Len(o.nodes) = Len(s.ns) /\ \A i \in DOMAIN s.ns : NodeOK(s, i, o.nodes[i])
\* ---- components
Dot(a, x) == Sum([i \in DOMAIN x |-> a[i] * x[i]])
Val(r, x) == r.c + Dot(r.a, x)
Shown(c, x) == IF c.dyn THEN SelectSeq(c.rows, LAMBDA r : x[1] >= r.t) ELSE c.rows
Rows(cs, x) == Cat([i \in DOMAIN cs |-> Shown(cs[i], x)])
StackOK(rs, x, o) ==
  /\ o.n = Len(rs) /\ o.val = [i \in DOMAIN rs |-> Val(rs[i], x)] /\ o.w = [i \in DOMAIN rs |-> rs[i].w]
  /\ o.lo = [i \in DOMAIN rs |-> rs[i].lo] /\ o.hi = [i \in DOMAIN rs |-> rs[i].hi]
  /\ o.jac = [i \in DOMAIN rs |-> rs[i].a]
AddUp(rs, n) == [j \in 1..n |-> Sum([i \in DOMAIN rs |-> rs[i].a[j]])]
=============================================================================
