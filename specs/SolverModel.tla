---------------------------- MODULE SolverModel ----------------------------
(* A convex solver model of trajopt_sco (sco::Model, BPMPDModel): what the user has told it, and the problem that follows.
   m = [vars, cnts, obj, sol]: a variable is [lo, hi, live], a constraint [t ("eq"/"ineq"), e, live]; both are known by the order
   of their creation. An expression is [c, a |-> <<<<var, coef>>..>>, q |-> <<<<var, var, coef>>..>>]; a variable may occur often. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
INF == 1000000000
RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + SumTo(f, k - 1)
Rng(s) == {s[i] : i \in DOMAIN s}
Zero == [c |-> 0, a |-> <<>>, q |-> <<>>]
NoModel == [vars |-> <<>>, cnts |-> <<>>, obj |-> Zero, sol |-> <<>>]
LiveV(m) == {i \in DOMAIN m.vars : m.vars[i].live}
LiveC(m) == {i \in DOMAIN m.cnts : m.cnts[i].live}
VarsOf(e) == {e.a[i][1] : i \in DOMAIN e.a} \cup {e.q[i][1] : i \in DOMAIN e.q} \cup {e.q[i][2] : i \in DOMAIN e.q}
Lin(e, v) == SumTo(LAMBDA i : IF e.a[i][1] = v THEN e.a[i][2] ELSE 0, Len(e.a))
Quad(e, v, w) == SumTo(LAMBDA i : IF {e.q[i][1], e.q[i][2]} = {v, w} THEN e.q[i][3] ELSE 0, Len(e.q))

-----------------------------------------------------------------------------
AddVar(m, lo, hi) == [m EXCEPT !.vars = Append(@, [lo |-> lo, hi |-> hi, live |-> TRUE])]
AddCnt(m, t, e) == [m EXCEPT !.cnts = Append(@, [t |-> t, e |-> e, live |-> TRUE])]
RemoveVars(m, S) == [m EXCEPT !.vars = [i \in DOMAIN @ |-> IF i \in S THEN [@[i] EXCEPT !.live = FALSE] ELSE @[i]]]
RemoveCnts(m, S) == [m EXCEPT !.cnts = [i \in DOMAIN @ |-> IF i \in S THEN [@[i] EXCEPT !.live = FALSE] ELSE @[i]]]
\* bounds for the variables vs, in that order; the last one counts
SetBounds(m, vs, lo, hi) ==
  [m EXCEPT !.vars = [i \in DOMAIN @ |-> IF i \in Rng(vs)
     THEN LET k == CHOOSE k \in DOMAIN vs : vs[k] = i /\ \A j \in DOMAIN vs : vs[j] = i => j <= k IN [@[i] EXCEPT !.lo = lo[k], !.hi = hi[k]]
     ELSE @[i]]]
SetObjective(m, e) == [m EXCEPT !.obj = e]
\* the solver answers: val gives each live variable its value
Solved(m, val) == [m EXCEPT !.sol = val]
\* what a user must not do: mention variables that are gone
Sound(m) == /\ VarsOf(m.obj) \subseteq LiveV(m)
            /\ \A i \in LiveC(m) : VarsOf(m.cnts[i].e) \subseteq LiveV(m)

-----------------------------------------------------------------------------
(* the problem handed to the solver, read through the columns of the live variables: col[v] \in 1..n *)
RowOf(m, i, col, n) ==
  LET e == m.cnts[i].e IN [k |-> [j \in 1..n |-> SumTo(LAMBDA x : IF col[e.a[x][1]] = j THEN e.a[x][2] ELSE 0, Len(e.a))],
                           lo |-> IF m.cnts[i].t = "eq" THEN -e.c ELSE -INF, hi |-> -e.c]
Flip(r) == [k |-> [j \in DOMAIN r.k |-> -r.k[j]], lo |-> -r.hi, hi |-> -r.lo]
Same(r, s) == r = s \/ (r.lo = r.hi /\ Flip(r) = s)
Start(cnt, j) == SumTo(LAMBDA i : cnt[i], j - 1)
ColSet(cnt, j) == {Start(cnt, j) + i : i \in 1..cnt[j]}
Entry(cnt, idx, nzs, j, i) == LET P == {p \in ColSet(cnt, j) : idx[p] = i} IN IF P = {} THEN 0 ELSE nzs[CHOOSE p \in P : TRUE]
\* columns are complete and hold a row only once
Packed(cnt, idx, nzs, n, max) == /\ Len(cnt) = n /\ Len(idx) = SumTo(LAMBDA i : cnt[i], n) /\ Len(nzs) = Len(idx)
                                 /\ \A p \in DOMAIN idx : idx[p] \in 1..max
                                 /\ \A j \in 1..n : Cardinality({idx[p] : p \in ColSet(cnt, j)}) = cnt[j]
Low(v) == IF v <= -INF THEN -INF ELSE v
ProblemRow(p, i, cells) == [k |-> [j \in 1..p.n |-> LET P == {q \in cells[j] : p.ai[q] = i} IN IF P = {} THEN 0 ELSE p.av[CHOOSE q \in P : TRUE]],
                     lo |-> IF p.lb[p.n + i] = -INF THEN -INF ELSE p.rhs[i] + p.lb[p.n + i],
                     hi |-> IF p.ub[p.n + i] = INF THEN INF ELSE p.rhs[i] + p.ub[p.n + i]]
WellFormed(p) == /\ p.nz = Len(p.av) /\ p.qnz = Len(p.qv) /\ p.qn <= p.n
                 /\ Packed(p.ac, p.ai, p.av, p.n, p.m) /\ Packed(p.qc, p.qi, p.qv, p.n, p.n)
                 /\ \A j \in 1..p.n : \A x \in ColSet(p.qc, j) : p.qi[x] >= j          \* lower triangle
                 /\ Len(p.rhs) = p.m /\ Len(p.obj) = p.n /\ Len(p.lb) = p.n + p.m /\ Len(p.ub) = p.n + p.m
Columns(m, col, n) == /\ DOMAIN col = LiveV(m) /\ n = Cardinality(LiveV(m)) /\ {col[v] : v \in LiveV(m)} = 1..n
BoundsAre(m, p, col) == \A v \in LiveV(m) : p.lb[col[v]] = m.vars[v].lo /\ p.ub[col[v]] = m.vars[v].hi
ObjectiveIs(m, p, col) == /\ \A v \in LiveV(m) : p.obj[col[v]] = Lin(m.obj, v)
                          /\ IF p.qv = <<>> /\ m.obj.q = <<>> THEN TRUE
                             ELSE \A v, w \in LiveV(m) : col[v] <= col[w] =>
                                    Entry(p.qc, p.qi, p.qv, col[v], col[w]) = (IF v = w THEN 2 ELSE 1) * Quad(m.obj, v, w)
RowsAre(m, p, col) == LET want == TLCEval([i \in LiveC(m) |-> TLCEval(RowOf(m, i, col, p.n))])
                          cells == TLCEval([j \in 1..p.n |-> TLCEval(ColSet(p.ac, j))])
                          got == TLCEval([i \in 1..p.m |-> TLCEval(ProblemRow(p, i, cells))]) IN
                      /\ p.m = Cardinality(LiveC(m))
                      /\ \A i \in LiveC(m) : Cardinality({j \in 1..p.m : Same(want[i], got[j])}) = Cardinality({j \in LiveC(m) : Same(want[i], want[j])})
StatusOf(code) == IF code = 2 THEN "solved" ELSE IF code \in {3, 4} THEN "infeasible" ELSE "failed"
=============================================================================
