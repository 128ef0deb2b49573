------------------------------- MODULE Legacy -------------------------------
(* The optimizer of trajopt_sco (BasicTrustRegionSQP): what it does between two moments an observer sees. The observer is
   called at the head of every iteration ("cb"), the convex solver is asked ("solve"), the result is returned ("ret").
   A state is a record; the operators give the states at the next such moment. *)
EXTENDS SQPDefs

\* a run: parameters p, first point x with its exact costs c and violations v, and the counters kept from earlier runs
Start0(p, x, c, v, clock) ==
  [p |-> p, pc |-> "start", x |-> x, c |-> c, v |-> v, box |-> p.box0, coef |-> [i \in DOMAIN v |-> p.coef0], iter |-> 1, pen |-> 0,
   nqp |-> 0, nok |-> 0, nfail |-> 0, t0 |-> clock, clock |-> clock, cvn |-> 0, status |-> "running"]
Over(s, st) == [s EXCEPT !.status = st, !.pc = "final"]
\* a limit was reached: that is the status unless the constraints hold
Limit(s, st) == Over(s, IF Feasible(s.p, s.v) THEN "converged" ELSE st)
AtHead(s) == IF s.clock - s.t0 > s.p.maxtime THEN Limit(s, "time") ELSE [s EXCEPT !.pc = "cb"]
Round(s) == IF s.pen < s.p.maxinc THEN AtHead([s EXCEPT !.iter = 1]) ELSE Over(s, "penlimit")
Penalty(s) == IF Feasible(s.p, s.v) THEN Over(s, "converged")
              ELSE Round([s EXCEPT !.coef = Inflated(s.p, s.v, s.coef), !.box = Raised(s.p, s.box), !.pen = s.pen + 1])
Region(s) == IF s.box < s.p.minbox THEN Penalty(s) ELSE [s EXCEPT !.pc = "solve"]

Begin(s) == Round(s)
\* after the callback: a new convexification
Convexified(s) == Region([s EXCEPT !.cvn = @ + 1, !.nfail = 0])
\* the convex solver fails: smaller steps, at the last tolerated failure the smallest, then the end
Failed(s, dt) ==
  LET t == [s EXCEPT !.nqp = @ + 1, !.nfail = @ + 1, !.clock = @ + dt] IN
  IF t.nfail > t.p.maxfail THEN Over(t, "failed")
  ELSE Region([t EXCEPT !.box = IF t.nfail < t.p.maxfail THEN Mul(@, t.p.shrink) ELSE t.p.minbox])
\* it answers with a candidate n = [x, c, v (exact), ac, av (of the model)]
Best(s) == [c |-> s.c, v |-> s.v]
\* 0 / 0: a predicted improvement of nothing is no measure, either verdict will do; so for a worsening of nothing
Vague(s, n) == LET ai == ApproxImp(s.coef, Best(s), n)  m == Merit(s.c, s.v, s.coef) IN
               [ratio |-> ai = 0 /\ ExactImp(s.coef, Best(s), n) >= 0, frac |-> m = 0 /\ (ai < 0 \/ (s.p.frac # <<>> /\ ai = 0))]
Accept(s, n) == LET t == [s EXCEPT !.x = n.x, !.c = n.c, !.v = n.v, !.box = Mul(@, s.p.expand)] IN
                IF t.box < t.p.minbox THEN Penalty(t) ELSE IF t.iter >= t.p.maxit THEN Limit(t, "iter") ELSE AtHead([t EXCEPT !.iter = @ + 1])
Reject(s) == Region([s EXCEPT !.box = Mul(@, s.p.shrink)])
Judge(s, n) ==
  LET small == SmallImprove(s.p, s.coef, Best(s), n)
      plain == ApproxImp(s.coef, Best(s), n) < s.p.minimp
      vg == Vague(s, n) IN
  (IF small \/ vg.frac THEN {Penalty(s)} ELSE {})
  \cup (IF ~small \/ (vg.frac /\ ~plain)
        THEN IF vg.ratio THEN {Accept(s, n), Reject(s)}
             ELSE IF Acceptable(s.p, s.coef, Best(s), n) THEN {Accept(s, n)} ELSE {Reject(s)}
        ELSE {})
Solved(s, n, dt) == Judge([s EXCEPT !.nqp = @ + 1, !.nok = @ + 1, !.clock = @ + dt], n)
=============================================================================
