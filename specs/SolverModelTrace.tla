-------------------------- MODULE SolverModelTrace --------------------------
(* What users told the real models, what reached the solver process, and what was read back. *)
EXTENDS SolverModel, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ms
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
\* several threads add variables with bounds, and a constraint on each
ParVars(op) == [x \in 1..(op.threads * op.per) |-> LET t == (x - 1) \div op.per  i == (x - 1) % op.per IN [lo |-> -t - 1, hi |-> 100 * t + i, live |-> TRUE]]
ParCnts(op, v0) == [x \in 1..(op.threads * op.per) |-> LET t == (x - 1) \div op.per  i == (x - 1) % op.per IN
                      [t |-> IF i % 2 = 0 THEN "ineq" ELSE "eq", e |-> [c |-> -t - 1, a |-> <<<<v0 + x, 1>>>>, q |-> <<>>], live |-> TRUE]]
ColOf(e) == [v \in {e.col[i][1] : i \in DOMAIN e.col} |-> e.col[CHOOSE i \in DOMAIN e.col : e.col[i][1] = v][2]]
Done(m, e) ==
  CASE e.e = "var" -> AddVar(m, e.op.lo, e.op.hi)
    [] e.e \in {"eq", "ineq"} -> AddCnt(m, e.e, e.op.e)
    [] e.e = "rmv" -> RemoveVars(m, Rng(e.op.ids))
    [] e.e = "rmc" -> RemoveCnts(m, Rng(e.op.ids))
    [] e.e = "bnd" -> SetBounds(m, e.op.ids, e.op.lo, e.op.hi)
    [] e.e \in {"obja", "objq"} -> SetObjective(m, e.op.e)
    [] e.e = "par" -> [m EXCEPT !.vars = @ \o ParVars(e.op), !.cnts = @ \o ParCnts(e.op, Len(m.vars))]
    [] e.e = "solve" -> LET col == TLCEval(ColOf(e)) IN Solved(m, IF e.op.code = 2 THEN TLCEval([v \in DOMAIN col |-> e.base + col[v]]) ELSE <<>>)
    [] e.e \in {"upd", "qineq"} -> m
SolveOK(m) ==
  LET col == TLCEval(ColOf(E)) IN
  /\ Clause("asked", "n" \in DOMAIN E.p)
  /\ Clause("columns", Columns(m, col, E.p.n))
  /\ Clause("wellformed", WellFormed(E.p))
  /\ Clause("bounds", BoundsAre(m, E.p, col))
  /\ Clause("objective", ObjectiveIs(m, E.p, col))
  /\ Clause("rows", RowsAre(m, E.p, col))
  /\ Clause("status", E.status = StatusOf(E.op.code))
GetOK(m) ==
  /\ Clause("values", \A i \in DOMAIN E.ids : E.vals[i] = m.sol[E.ids[i]])
  /\ Clause("listed", LiveV(m) \subseteq Rng(E.vars) /\ (~E.marked => Rng(E.vars) = LiveV(m) /\ Len(E.vars) = Cardinality(LiveV(m))))
Step ==
  CASE E.e = "new" -> ms' = [k \in 1..E.models |-> NoModel]
    [] E.e = "get" -> ms' = ms /\ GetOK(ms[E.k])
    [] OTHER -> /\ Clause("sound", Sound(Done(ms[E.k], E)))
                /\ IF E.e = "solve" THEN SolveOK(ms[E.k]) ELSE IF E.e = "qineq" THEN Clause("refused", E.threw) ELSE TRUE
                /\ ms' = [ms EXCEPT ![E.k] = Done(@, E)]
TInit == l = 1 /\ ms = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, ms>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
