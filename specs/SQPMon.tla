------------------------------- MODULE SQPMon -------------------------------
(* The observable side of C01-C04: every QP solve, callback and return of a  *)
(* run is an event, and Bad(m, e) is the set of clauses that the event e     *)
(* violates after the history summarised in m. Used twice: on the events the *)
(* design SQP.tla produces, and on the events recorded from the real solver. *)
EXTENDS SQPDefs

If(name, ok) == IF ok THEN {} ELSE {name}
AllEq(s, v) == \A i \in DOMAIN s : s[i] = v

\* state of the monitor at the start of a run; x0 is the start point
MonNew(p, n, c, v) ==
  [p |-> p, n |-> n, c0 |-> c, v0 |-> v, inc |-> [i \in 1..n |-> 0], c |-> c, v |-> v, box |-> p.box0, coef |-> [i \in DOMAIN v |-> p.coef0],
   pend |-> "none",       \* outcome of the last QP: "none", "fail", "cb"
   R |-> <<>>,            \* what the callback saw
   pen |-> 0, cv |-> -1, cvr |-> -1, nqp |-> 0, fails |-> 0, stopped |-> FALSE, aborted |-> FALSE,
   small |-> FALSE,       \* the last QP predicted no sufficient improvement
   ended |-> FALSE]

Inc(R) == [c |-> R.bc, v |-> R.bv]
New(R) == [c |-> R.nc, v |-> R.nv, ac |-> R.ac, av |-> R.av]
LensOK(m, R) == Len(R.bc) = Len(m.c) /\ Len(R.bv) = Len(m.v) /\ Len(R.coef) = Len(m.v) /\ Len(R.bx) = m.n
NewLensOK(m, R) == /\ Len(R.nc) = Len(m.c) /\ Len(R.nv) = Len(m.v) /\ Len(R.ac) = Len(m.c) /\ Len(R.av) = Len(m.v)
                   /\ Len(R.nx) = m.n

\* has the incumbent moved since the last event?
Moved(m, e) == m.pend = "cb" /\ e.R.bx = m.R.nx /\ e.R.bx # m.inc
MovedOrSame(m, e) == m.pend = "cb" /\ e.R.bx = m.R.nx   \* the candidate may be the incumbent itself

-----------------------------------------------------------------------------
\* C01
C01(m, e) == LET R == e.R IN
  \* costs, violations and merit reported for the best point are those of the best point
  If("C01.best.exact", R.bc = e.exb.c /\ R.bv = e.exb.v) \cup
  If("C01.best.merit", R.bm = Merit(R.bc, R.bv, R.coef)) \cup
  \* the best point changes only to the candidate just judged, and only if that is acceptable
  If("C01.move", IF e.e = "cb" THEN R.bx = m.inc
                 ELSE R.bx = m.inc \/ (Moved(m, e) /\ Acceptable(m.p, m.R.coef, Inc(m.R), New(m.R)))) \cup
  If("C01.cand", e.e = "cb" => /\ R.nc = e.exn.c /\ R.nv = e.exn.v /\ R.ac = e.exn.ac /\ R.av = e.exn.av
                               /\ R.nm = Merit(R.nc, R.nv, R.coef) /\ R.am = Merit(R.ac, R.av, R.coef)
                               /\ R.ai = R.bm - R.am /\ R.ei = R.bm - R.nm) \cup
  If("C01.left", e.e = "ret" => e.x = R.bx)

\* C02
NewConv(m, e) == e.cv # m.cv
C02(m, e) == LET R == e.R  p == m.p  newc == NewConv(m, e) /\ e.cv > 0 IN
  If("C02.stop", e.e # "ret" => ~m.stopped) \cup
  If("C02.abort", e.e # "ret" => ~m.aborted) \cup
  If("C02.budget", newc => m.nqp < p.maxit /\ e.clock <= p.maxtime) \cup
  If("C02.rounds", e.e = "solve" => R.pen < p.maxinc) \cup
  (IF e.e # "ret" THEN {} ELSE
   If("C02.status", e.status \in {"converged", "time", "iter", "penlimit", "failed", "stopped"}) \cup
   If("C02.converged", e.status = "converged" =>
        /\ Feasible(p, R.bv)
        /\ m.small \/ (\A i \in DOMAIN R.box : R.box[i] < p.minbox) \/ m.nqp >= p.maxit \/ e.clock > p.maxtime
           \/ e.cv - m.cvr >= p.maxconv) \cup
   If("C02.time", e.status = "time" => e.clock > p.maxtime) \cup
   If("C02.iter", e.status = "iter" => m.nqp >= p.maxit) \cup
   If("C02.penlimit", e.status = "penlimit" => R.pen + 1 >= p.maxinc) \cup
   If("C02.stopped", (e.status = "stopped") <=> m.stopped) \cup
   If("C02.failed", (e.status = "failed") <=> m.aborted))

\* C03
BoxAfter(m, e) == \* set of admissible sizes after the last outcome, before a penalty adjustment
  LET p == m.p IN
  CASE m.pend = "none" -> {m.box}
    [] m.pend = "fail" -> {IF m.fails < p.maxfail THEN Mul(m.box, p.shrink) ELSE IF m.fails = p.maxfail THEN p.minbox ELSE m.box}
    [] m.pend = "cb" -> (IF Moved(m, e) THEN {Mul(m.box, p.expand)}
                         ELSE IF m.stopped \/ m.small THEN {m.box}
                         ELSE {Mul(m.box, p.shrink)} \cup (IF MovedOrSame(m, e) THEN {Mul(m.box, p.expand)} ELSE {}))
Adjusted(m, e) == e.R.pen # m.pen \/ (e.e = "ret" /\ e.status = "penlimit" /\ m.p.maxinc > 0)
C03(m, e) == LET R == e.R  p == m.p  adj == Adjusted(m, e) IN
  If("C03.box", \E b \in BoxAfter(m, e) : AllEq(R.box, IF adj THEN Raised(p, b) ELSE b)) \cup
  If("C03.boxset", e.box = R.box) \cup
  If("C03.minbox", e.e = "solve" => \A i \in DOMAIN R.box : R.box[i] >= p.minbox) \cup
  If("C03.coef", Len(R.bv) = Len(m.coef) /\ R.coef = IF adj THEN Inflated(p, R.bv, m.coef) ELSE m.coef) \cup
  If("C03.coefset", e.coef = R.coef) \cup
  If("C03.pen", R.pen = m.pen \/ R.pen = m.pen + 1) \cup
  If("C03.merit", R.bm = Merit(R.bc, R.bv, R.coef))

\* C04
C04(m, e) == IF e.e # "solve" THEN {} ELSE LET R == e.R IN
  If("C04.data", e.held = e.cur) \cup
  If("C04.point", e.lin = R.bx) \cup
  If("C04.coef", e.qpcoef = R.coef) \cup
  If("C04.box", e.boxed)     \* the variable rows of the bounds are best point +- box (clamped to the limits)

Bad(m, e) == IF ~LensOK(m, e.R) \/ (e.e = "cb" /\ ~NewLensOK(m, e.R)) THEN {"C01.shape", "C02.shape", "C03.shape", "C04.shape"}
             ELSE C01(m, e) \cup C02(m, e) \cup C03(m, e) \cup C04(m, e)
-----------------------------------------------------------------------------
\* next monitor state: what was observed, whether or not it was right
MonStep(m, e) == LET R == e.R
                     f0 == IF NewConv(m, e) THEN 0 ELSE m.fails
                     b == IF Len(R.box) > 0 THEN R.box[1] ELSE m.box
                     mm == [m EXCEPT !.inc = R.bx, !.box = b, !.coef = R.coef, !.pen = R.pen, !.cv = e.cv,
                                     !.cvr = IF m.cv = -1 THEN 0 ELSE IF R.pen # m.pen THEN m.cv ELSE m.cvr]
  IN CASE e.e = "solve" -> [mm EXCEPT !.nqp = m.nqp + 1, !.fails = f0 + (IF e.ok THEN 0 ELSE 1),
                                      !.aborted = m.aborted \/ (~e.ok /\ f0 + 1 > m.p.maxfail),
                                      !.pend = IF e.ok THEN "none" ELSE "fail", !.small = FALSE]
       [] e.e = "cb" -> [mm EXCEPT !.pend = "cb", !.R = R, !.stopped = m.stopped \/ e.stop,
                                   !.small = SmallImprove(m.p, R.coef, Inc(R), New(R))]
       [] OTHER -> [mm EXCEPT !.ended = TRUE]
=============================================================================
