----------------------------- MODULE BackTrace -----------------------------
(* What users told models over OSQP and qpOASES, what those libraries held when they were asked, and what was read back.
   p = matrices in compressed columns (counts qc/ac, rows qi/ai, values qv/av), obj, rows lo..hi and, for qpOASES, bounds vlo..vhi. *)
EXTENDS SolverModel, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ms, kind
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
ParVars(op) == [x \in 1..(op.threads * op.per) |-> LET t == (x - 1) \div op.per  i == (x - 1) % op.per IN [lo |-> -t - 1, hi |-> 100 * t + i, live |-> TRUE]]
ParCnts(op, v0) == [x \in 1..(op.threads * op.per) |-> LET t == (x - 1) \div op.per  i == (x - 1) % op.per IN
                      [t |-> IF i % 2 = 0 THEN "ineq" ELSE "eq", e |-> [c |-> -t - 1, a |-> <<<<v0 + x, 1>>>>, q |-> <<>>], live |-> TRUE]]
ColOf(e) == [v \in {e.col[i][1] : i \in DOMAIN e.col} |-> e.col[CHOOSE i \in DOMAIN e.col : e.col[i][1] = v][2]]
Done(m, e) ==
  CASE e.e = "var" -> AddVar(m, e.op.lo, e.op.hi)
    [] e.e \in {"eq", "ineq"} -> AddCnt(m, e.e, e.op.e)
    [] e.e = "rmv" -> RemoveVars(m, Rng(e.op.ids))
    [] e.e = "rmc" -> RemoveCnts(m, Rng(e.op.ids))
    [] e.e = "bnd" -> SetBounds(m, e.op.ids, e.op.lo, e.op.hi)
    [] e.e \in {"obja", "objq"} -> SetObjective(m, e.op.e)
    [] e.e = "par" -> [m EXCEPT !.vars = @ \o ParVars(e.op), !.cnts = @ \o ParCnts(e.op, Len(m.vars))]
    [] e.e = "solve" -> LET col == TLCEval(ColOf(e)) IN Solved(m, IF e.ans = "solved" THEN TLCEval([v \in DOMAIN col |-> e.base + col[v]]) ELSE <<>>)
    [] e.e \in {"upd", "qineq"} -> m

-----------------------------------------------------------------------------
\* the problem, whichever library it is in
Sized(p) == /\ p.pn = p.n /\ p.pm = p.n /\ p.an = p.n /\ p.am = p.m /\ Len(p.obj) = p.n /\ Len(p.lo) = p.m /\ Len(p.hi) = p.m
            /\ Packed(p.qc, p.qi, p.qv, p.n, p.n) /\ Packed(p.ac, p.ai, p.av, p.n, p.m)
\* rows of a column ascend
Sorted(cnt, idx) == \A j \in DOMAIN cnt : \A x \in 1..(cnt[j] - 1) : LET s == Start(cnt, j) IN idx[s + x] < idx[s + x + 1]
HessOK(k, p) == /\ Sorted(p.qc, p.qi) /\ Sorted(p.ac, p.ai)
                /\ IF k = "qpoases" THEN p.diag /\ \A j \in 1..p.n : \E x \in ColSet(p.qc, j) : p.qi[x] = j   \* regularisation needs the diagonal
                   ELSE \A j \in 1..p.n : \A x \in ColSet(p.qc, j) : p.qi[x] <= j                             \* upper triangle
Objective(k, m, p, col) ==
  /\ \A v \in LiveV(m) : p.obj[col[v]] = Lin(m.obj, v)
  /\ \A v, w \in LiveV(m) : LET want == (IF v = w THEN 2 ELSE 1) * Quad(m.obj, v, w)  got == Entry(p.qc, p.qi, p.qv, col[w], col[v]) IN
       IF k = "qpoases" \/ col[v] <= col[w] THEN got = want ELSE TRUE
HeldRow(p, i, cells) == [k |-> [j \in 1..p.n |-> LET P == {q \in cells[j] : p.ai[q] = i} IN IF P = {} THEN 0 ELSE p.av[CHOOSE q \in P : TRUE]], lo |-> p.lo[i], hi |-> p.hi[i]]
Says(r) == r.lo > -INF \/ r.hi < INF
\* OSQP takes bounds as rows
BoundRow(m, v, col, n) == [k |-> [j \in 1..n |-> IF col[v] = j THEN 1 ELSE 0], lo |-> m.vars[v].lo, hi |-> m.vars[v].hi]
Count(s, r) == Cardinality({i \in DOMAIN s : Same(r, s[i])})
RowsHeld(k, m, p, col) ==
  LET cells == TLCEval([j \in 1..p.n |-> TLCEval(ColSet(p.ac, j))])
      got == TLCEval(SelectSeq([i \in 1..p.m |-> TLCEval(HeldRow(p, i, cells))], Says))
      cs == TLCEval([i \in LiveC(m) |-> TLCEval(RowOf(m, i, col, p.n))])
      bs == TLCEval([v \in {v \in LiveV(m) : k # "qpoases" /\ Says(BoundRow(m, v, col, p.n))} |-> TLCEval(BoundRow(m, v, col, p.n))]) IN
  /\ Len(got) = Cardinality(DOMAIN cs) + Cardinality(DOMAIN bs)
  /\ \A i \in DOMAIN cs : Count(got, cs[i]) = Count(cs, cs[i]) + Count(bs, cs[i])
  /\ \A v \in DOMAIN bs : Count(got, bs[v]) = Count(cs, bs[v]) + Count(bs, bs[v])
BoundsHeld(k, m, p, col) == IF k = "qpoases" THEN /\ Len(p.vlo) = p.n /\ Len(p.vhi) = p.n
                                                  /\ \A v \in LiveV(m) : p.vlo[col[v]] = m.vars[v].lo /\ p.vhi[col[v]] = m.vars[v].hi
                            ELSE TRUE
Answer(ans) == IF ans \in {"solved", "infeasible"} THEN ans ELSE "failed"
SolveOK(k, m) ==
  LET col == TLCEval(ColOf(E)) IN
  /\ Clause("asked", E.asked \/ E.ans = "setup")
  /\ Clause("columns", Columns(m, col, E.p.n))
  /\ Clause("sized", Sized(E.p))
  /\ Clause("hessian", HessOK(k, E.p))
  /\ Clause("objective", Objective(k, m, E.p, col))
  /\ Clause("rows", RowsHeld(k, m, E.p, col))
  /\ Clause("bounds", BoundsHeld(k, m, E.p, col))
  /\ Clause("status", E.status = Answer(E.ans))
GetOK(m) ==
  /\ Clause("values", \A i \in DOMAIN E.ids : E.vals[i] = m.sol[E.ids[i]])
  /\ Clause("listed", LiveV(m) \subseteq Rng(E.vars) /\ (~E.marked => Rng(E.vars) = LiveV(m) /\ Len(E.vars) = Cardinality(LiveV(m))))
-----------------------------------------------------------------------------
\* which library is taken: the one asked for; without a wish, the one named in the environment, else the first there is
Names == <<"GUROBI", "OSQP", "QPOASES", "BPMPD", "AUTO_SOLVER">>  \* by number
Have == <<"OSQP", "QPOASES">>
Wish(e) == IF e.type # "AUTO_SOLVER" THEN e.type ELSE IF e.set /\ e.env # "AUTO_SOLVER" THEN e.env ELSE Have[1]
PickOK(e) == /\ Clause("available", e.have = Have)
             /\ Clause("names", e.shown = (IF e.type \in Rng(Names) THEN e.type ELSE "refused") /\ (e.given => e.named = e.shown))
             /\ Clause("picked", e.got = IF e.type \in Rng(Names) /\ Wish(e) \in Rng(Have) THEN Wish(e) ELSE "refused")
Step ==
  CASE E.e = "pick" -> PickOK(E) /\ UNCHANGED <<ms, kind>>
    [] E.e = "number" -> Clause("number", E.shown = IF E.i < Len(Names) THEN Names[E.i + 1] ELSE "refused") /\ UNCHANGED <<ms, kind>>
    [] E.e = "new" -> ms' = [k \in 1..E.models |-> NoModel] /\ kind' = E.kind
    [] E.e = "get" -> ms' = ms /\ GetOK(ms[E.k]) /\ kind' = kind
    [] OTHER -> /\ Clause("sound", Sound(Done(ms[E.k], E)))
                /\ IF E.e = "solve" THEN SolveOK(kind, ms[E.k]) ELSE IF E.e = "qineq" THEN Clause("refused", E.threw) ELSE TRUE
                /\ ms' = [ms EXCEPT ![E.k] = Done(@, E)] /\ kind' = kind
TInit == l = 1 /\ ms = <<>> /\ kind = "none"
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, ms, kind>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
