----------------------------- MODULE LegacyJoint -----------------------------
(* The joint terms of trajopt (Joint{Pos,Vel,Acc,Jerk}{Eq,Ineq}{Cost,Constraint}) on trajectories of a problem's variables,
   the arrays of variables they are built from, and the helpers around them.
   A term is [o: order 0..3, eq, cost: BOOLEAN, n0: variables made before, r: time steps, cols: joints of the arrays made together,
   k: which of them, f, l: first and last time step, co, ta, up, lo: coefficient, target, upper and lower tolerance per joint]. *)
EXTENDS Convex
\* variable (i, j) of array k, all counted from 1: the arrays made together are interleaved, time step by time step
Width(t) == SumTo(LAMBDA q : t.cols[q], Len(t.cols))
Before(t, k) == SumTo(LAMBDA q : t.cols[q], k - 1)
VarAt(t, k, i, j) == t.n0 + (i - 1) * Width(t) + Before(t, k) + j
NVars(t) == t.n0 + t.r * Width(t)
Index(t) == [k \in DOMAIN t.cols |-> [i \in 1..t.r |-> [j \in 1..t.cols[k] |-> VarAt(t, k, i, j)]]]
Prefix == <<"a", "b", "c">>
Dof(t) == t.cols[t.k]
Q(t, X, i, j) == X[VarAt(t, t.k, i + 1, j)]                     \* i counts from 0, as the time steps of the term do
Diff(t, X, i, j) ==
  LET q(d) == Q(t, X, i + d, j) IN
  CASE t.o = 0 -> q(0)
    [] t.o = 1 -> q(1) - q(0)
    [] t.o = 2 -> q(2) - 2 * q(1) + q(0)
    [] OTHER -> q(3) - 3 * q(2) + 3 * q(1) - q(0)
Steps(t) == t.l - t.o - t.f + 1
Short(t) == t.o > 0 /\ Steps(t) < 1
\* all errors of the term
Err(t, X, i, j) == Diff(t, X, i, j) - t.ta[j]
Over(t, X, i, j) == MaxI(0, Err(t, X, i, j) - t.up[j]) + MaxI(0, t.lo[j] - Err(t, X, i, j))
OverAll(t, f(_, _)) == SumTo(LAMBDA s : SumTo(LAMBDA j : f(t.f + s - 1, j), Dof(t)), Steps(t))
SquaredCost(t, X) == OverAll(t, LAMBDA i, j : t.co[j] * Err(t, X, i, j) * Err(t, X, i, j))
LinearViol(t, X) == OverAll(t, LAMBDA i, j : Abs(t.co[j] * Err(t, X, i, j)))
ExcessAll(t, X) == OverAll(t, LAMBDA i, j : t.co[j] * Over(t, X, i, j))
Count(t, X) == OverAll(t, LAMBDA i, j : IF t.co[j] * Err(t, X, i, j) # 0 THEN 1 ELSE 0)
CostOf(t, X) == IF t.eq THEN SquaredCost(t, X) ELSE ExcessAll(t, X)
\* the convex form has this value at every point: the terms are convex already
ModelOK(t, X, e) == LET aux == SelectSeq(e.bnd, LAMBDA b : b[1] > NVars(t)) IN
                    /\ Readable(e.obj, e.rows, aux, NVars(t))
                    /\ IsVal(MinAux(e.obj, e.rows, aux, NVars(t), X), CostOf(t, X))
\* constraints: equalities may report the squares of their errors; their rows are linear
Sum(s) == SumTo(LAMBDA i : s[i], Len(s))
NonZero(s) == Cardinality({i \in DOMAIN s : s[i] # 0})
ViolOK(t, X, v) == IF t.eq THEN Sum(v) \in {SquaredCost(t, X), LinearViol(t, X)} /\ NonZero(v) = Count(t, X) ELSE Sum(v) = ExcessAll(t, X)
RowVal(r, n, X) == BasePart(r, n, X)
RowsOK(t, X, e) ==
  LET n == NVars(t) IN
  /\ \A i \in DOMAIN e.rows : e.rows[i].t = (IF t.eq THEN 0 ELSE 1) /\ AuxOf(e.rows[i], n) = {}
  /\ SumTo(LAMBDA i : IF t.eq THEN Abs(RowVal(e.rows[i], n, X)) ELSE MaxI(0, RowVal(e.rows[i], n, X)), Len(e.rows)) = (IF t.eq THEN LinearViol(t, X) ELSE ExcessAll(t, X))
  /\ t.eq => Cardinality({i \in DOMAIN e.rows : RowVal(e.rows[i], n, X) # 0}) = Count(t, X)
  /\ Sum(e.cviol) = (IF t.eq THEN LinearViol(t, X) ELSE ExcessAll(t, X))

-----------------------------------------------------------------------------
(* tables *)
Block(a, i, j, n, m) == [p \in 1..n |-> [q \in 1..m |-> a[i + p][j + q]]]
Wide(a) == Len(a[1])
Flat(a) == [p \in 1..(Len(a) * Wide(a)) |-> a[((p - 1) \div Wide(a)) + 1][((p - 1) % Wide(a)) + 1]]
ExprAt(e, X) == e[1] + e[3] * X[e[2]]
(* values by name *)
Where(names, nm) == CHOOSE i \in DOMAIN names : names[i] = nm
Known(names, subset) == \A i \in DOMAIN subset : \E p \in DOMAIN names : names[p] = subset[i]
SuperOK(names, subset, ok) == ok = (Known(names, subset) /\ Len(names) > Len(subset))
GetOK(names, vals, subset, ok, got) == /\ ok = Known(names, subset)
                                       /\ ok => got = [i \in DOMAIN subset |-> vals[Where(names, subset[i])]]
PutOK(names, vals, subset, new, ok, got) ==
  /\ ok = Known(names, subset)
  /\ ok => got = [i \in DOMAIN names |-> IF \E p \in DOMAIN subset : subset[p] = names[i] THEN new[Where(subset, names[i])] ELSE vals[i]]
=============================================================================
