---------------------------- MODULE LegacyTrace ----------------------------
(* Runs of the real optimizer judged by Legacy: at every moment the observer sees, the state of the specification must be at
   that moment, and what is seen must be what that state says. *)
EXTENDS Legacy, Json, IOUtils
C == INSTANCE Convex
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, px
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
INF == 1000000000
Margin == 8 * 4096 + 1
Idle == [pc |-> "idle"]
Boot(e, q) == [pc |-> "boot", p |-> e.P, x |-> e.x, clock |-> e.clock, nqp |-> q]
Here == IF s.pc = "boot" THEN Begin([Start0(s.p, E.x, E.tc, E.tv, s.clock) EXCEPT !.nqp = s.nqp]) ELSE s
\* the reported solution carries its own exact values
Reported(t) == /\ Clause("point", E.x = t.x)
               /\ Clause("values", E.c = E.tc /\ E.v = E.tv /\ E.c = t.c /\ E.v = t.v)
               /\ Clause("solves", E.nq = t.nqp)
StartOK == s.pc = "boot" => Clause("start", /\ Len(E.x) = Len(s.x)
                                            /\ \A i \in DOMAIN s.x : C!FeasOK(E.x[i], s.x[i], px.lo[i], px.hi[i], Margin))
BoxOK(t) == \A i \in DOMAIN E.x :
  LET x == C!Clamp(E.x[i], px.lo[i], px.hi[i]) IN
  /\ E.b[i][1] = (IF px.lo[i] = -INF THEN x - t.box ELSE C!MaxI(x - t.box, px.lo[i]))
  /\ E.b[i][2] = (IF px.hi[i] = INF THEN x + t.box ELSE C!MinI(x + t.box, px.hi[i]))
\* the problem that is solved: the models of the costs plus the penalties of the models of the constraints
NC == Len(px.costs)
N == px.n + NC + Len(px.rows)
Pts == {[i \in 1..N |-> 0], [i \in 1..N |-> IF i <= px.n THEN 3 ELSE (i % 3) - 1], [i \in 1..N |-> IF i <= px.n THEN -2 ELSE 2 - ((i * i) % 5)]}
Want(t, X) == IF \E i \in 1..NC : px.costs[i] /\ X[px.n + i] > 1 THEN <<1, 0>>
              ELSE <<C!SumTo(LAMBDA i : X[px.n + i], NC)
                     + C!SumTo(LAMBDA k : t.coef[px.rows[k].j] * C!Pen(IF px.rows[k].eq THEN "eq" ELSE "ineq", px.rows[k].sg * X[px.n + NC + k]), Len(px.rows)), 1>>
ProblemOK(t) ==
  /\ Clause("convexified", E.here /\ E.missing = 0 /\ E.nown = N)
  /\ Clause("leftovers", E.stale = 0 /\ E.lin = px.nlin /\ E.foreign = 0)
  /\ Clause("readable", C!Readable(E.obj, E.rows, E.auxb, N))
  /\ Clause("objective", \A X \in Pts : LET f == C!MinAux(E.obj, E.rows, E.auxb, N, X)  w == Want(t, X) IN
                                        IF w[2] = 0 THEN f[2] = 0 ELSE f[2] # 0 /\ f[1] = w[1] * f[2])
Step ==
  CASE E.e = "new" -> px' = [n |-> E.n, lo |-> E.lo, hi |-> E.hi, costs |-> E.costs, rows |-> E.rows, nlin |-> E.nlin, nqp |-> 0] /\ s' = Idle
    [] E.e = "run" -> /\ px' = [px EXCEPT !.nqp = IF E.init THEN 0 ELSE @] /\ s' = Boot(E, px'.nqp)
                      /\ Clause("refused", E.refused)
    [] E.e = "cb" -> LET t == Here IN
                     /\ px' = px /\ StartOK
                     /\ Clause("moment", t.pc \in {"cb", "final"})
                     /\ Reported(t)
                     /\ s' = IF t.pc = "cb" THEN Convexified(t) ELSE [t EXCEPT !.pc = "ret"]
    [] E.e = "solve" -> /\ px' = px
                        /\ Clause("moment", s.pc = "solve")
                        /\ Reported(s) /\ Clause("box", BoxOK(s)) /\ ProblemOK(s)
                        /\ IF E.ok THEN s' \in Solved(s, E.cand, E.dt) ELSE s' = Failed(s, E.dt)
    [] E.e = "ret" -> /\ Clause("moment", s.pc = "ret")
                      /\ Reported(s) /\ Clause("status", E.status = s.status)
                      /\ Clause("total", E.total = Sum(E.c))
                      /\ Clause("cleaned", E.nvars = px.n /\ E.nrows = px.nlin /\ E.foreign = 0)
                      /\ Clause("inside", \A i \in DOMAIN E.x : C!Inside(E.x[i], px.lo[i], px.hi[i]))
                      /\ px' = [px EXCEPT !.nqp = s.nqp] /\ s' = Idle
TInit == l = 1 /\ s = Idle /\ px = [n |-> 0, lo |-> <<>>, hi |-> <<>>, costs |-> <<>>, rows |-> <<>>, nlin |-> 0, nqp |-> 0]
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, s, px>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
