-------------------------------- MODULE SQP --------------------------------
(* The trust-region SQP solver (trajopt_sqp): the algorithm behind           *)
(* TrustRegionSQPSolver::solve, seen from its two collaborators, the QP      *)
(* problem and the QP solver. Exact costs, violations and their convex       *)
(* counterparts, QP failures, callback answers and the clock are chosen by   *)
(* the environment. All quantities are integers (costs, violations and       *)
(* tolerances in one unit, box sizes in another), ratios are pairs.          *)
EXTENDS SQPDefs

VARIABLES
  P,       \* parameters (constant during a run)
  pc,      \* "convex": head of the convexification loop, "tr": head of the trust region loop,
           \* "judge": a QP was solved, "penalty": constraints are checked, "done"
  best,    \* incumbent [id, c, v]: point, its costs, its violations
  cand,    \* candidate [id, c, v, ac, av] of the last QP
  box,     \* trust region half width
  coef,    \* penalty coefficient of each constraint
  lin,     \* point at which the current QP was linearised
  qpcoef,  \* penalty coefficients the current QP was built with
  nconv,   \* convexifications in this penalty round
  pen,     \* penalty rounds finished
  nqp,     \* QPs solved so far
  nfail,   \* QP failures since the last convexification
  clock,   \* elapsed time
  status
vars == <<P, pc, best, cand, box, coef, lin, qpcoef, nconv, pen, nqp, nfail, clock, status>>

-----------------------------------------------------------------------------
Init0(p, b) ==
  /\ P = p /\ best = b /\ cand = [id |-> 0, c |-> <<>>, v |-> <<>>, ac |-> <<>>, av |-> <<>>]
  /\ box = p.box0 /\ coef = [i \in DOMAIN b.v |-> p.coef0]
  /\ lin = -1 /\ qpcoef = <<>> /\ nconv = 0 /\ pen = 0 /\ nqp = 0 /\ nfail = 0 /\ clock = 0
  /\ status = "running" /\ pc = (IF p.maxinc > 0 THEN "convex" ELSE "limit")

Stay(xs) == UNCHANGED xs

\* --- head of the convexification loop
OutOfTime == /\ pc = "convex" /\ nconv < P.maxconv /\ clock > P.maxtime
             /\ status' = "time" /\ pc' = "penalty"
             /\ Stay(<<P, best, cand, box, coef, lin, qpcoef, nconv, pen, nqp, nfail, clock>>)
OutOfIterations == /\ pc = "convex" /\ nconv < P.maxconv /\ clock <= P.maxtime /\ nqp >= P.maxit
             /\ status' = "iter" /\ pc' = "penalty"
             /\ Stay(<<P, best, cand, box, coef, lin, qpcoef, nconv, pen, nqp, nfail, clock>>)
OutOfConvexifications == /\ pc = "convex" /\ nconv >= P.maxconv
             /\ pc' = "penalty"
             /\ Stay(<<P, best, cand, box, coef, lin, qpcoef, nconv, pen, nqp, nfail, clock, status>>)
Convexify == /\ pc = "convex" /\ nconv < P.maxconv /\ clock <= P.maxtime /\ nqp < P.maxit
             /\ lin' = best.id /\ qpcoef' = coef /\ nconv' = nconv + 1 /\ nfail' = 0
             /\ pc' = "tr"
             /\ Stay(<<P, best, cand, box, coef, pen, nqp, clock, status>>)

\* --- trust region loop
BoxTiny == /\ pc = "tr" /\ box < P.minbox
           /\ status' = "converged" /\ pc' = "penalty"
           /\ Stay(<<P, best, cand, box, coef, lin, qpcoef, nconv, pen, nqp, nfail, clock>>)
\* the QP solver fails: shrink; at the last tolerated failure try the smallest box; then give up
QPFails(dt) ==
  /\ pc = "tr" /\ box >= P.minbox
  /\ nqp' = nqp + 1 /\ nfail' = nfail + 1 /\ clock' = clock + dt
  /\ IF nfail + 1 > P.maxfail THEN box' = box /\ status' = "failed" /\ pc' = "limit"
     ELSE /\ box' = IF nfail + 1 < P.maxfail THEN Mul(box, P.shrink) ELSE P.minbox
          /\ (nfail + 1 < P.maxfail => Exact(box, P.shrink))
          /\ status' = "running" /\ pc' = "tr"
  /\ Stay(<<P, best, cand, coef, lin, qpcoef, nconv, pen>>)
\* the QP solver returns a candidate; the callbacks see it and answer
QPSolved(n, stop, dt) ==
  /\ pc = "tr" /\ box >= P.minbox
  /\ nqp' = nqp + 1 /\ clock' = clock + dt /\ cand' = n
  /\ IF stop THEN status' = "stopped" /\ pc' = "limit" ELSE status' = "running" /\ pc' = "judge"
  /\ Stay(<<P, best, box, coef, lin, qpcoef, nconv, pen, nfail>>)

\* --- judgement
NoImprovement == /\ pc = "judge" /\ SmallImprove(P, coef, best, cand)
                 /\ status' = "converged" /\ pc' = "penalty"
                 /\ Stay(<<P, best, cand, box, coef, lin, qpcoef, nconv, pen, nqp, nfail, clock>>)
Reject == /\ pc = "judge" /\ ~SmallImprove(P, coef, best, cand) /\ ~Acceptable(P, coef, best, cand)
          /\ Exact(box, P.shrink) /\ box' = Mul(box, P.shrink) /\ pc' = "tr"
          /\ Stay(<<P, best, cand, coef, lin, qpcoef, nconv, pen, nqp, nfail, clock, status>>)
Accept == /\ pc = "judge" /\ ~SmallImprove(P, coef, best, cand) /\ Acceptable(P, coef, best, cand)
          /\ best' = [id |-> cand.id, c |-> cand.c, v |-> cand.v]
          /\ Exact(box, P.expand) /\ box' = Mul(box, P.expand)
          /\ pc' = IF box' < P.minbox THEN "tr" ELSE "convex"
          /\ Stay(<<P, cand, coef, lin, qpcoef, nconv, pen, nqp, nfail, clock, status>>)

\* --- end of a penalty round
Converged == /\ pc = "penalty" /\ Feasible(P, best.v)
             /\ status' = "converged" /\ pc' = "done"
             /\ Stay(<<P, best, cand, box, coef, lin, qpcoef, nconv, pen, nqp, nfail, clock>>)
LimitReached == /\ pc = "penalty" /\ ~Feasible(P, best.v) /\ status \in {"time", "iter"}
             /\ pc' = "done"
             /\ Stay(<<P, best, cand, box, coef, lin, qpcoef, nconv, pen, nqp, nfail, clock, status>>)
AdjustPenalty ==
  /\ pc = "penalty" /\ ~Feasible(P, best.v) /\ status \notin {"time", "iter"}
  /\ status' = "running" /\ coef' = Inflated(P, best.v, coef) /\ box' = Raised(P, box)
  /\ pen' = pen + 1 /\ nconv' = 0 /\ pc' = IF pen + 1 < P.maxinc THEN "convex" ELSE "limit"
  /\ Stay(<<P, best, cand, lin, qpcoef, nqp, nfail, clock>>)
\* aborted, or no penalty round left
Return == /\ pc = "limit" /\ pc' = "done"
          /\ status' = IF status = "running" THEN "penlimit" ELSE status
          /\ Stay(<<P, best, cand, box, coef, lin, qpcoef, nconv, pen, nqp, nfail, clock>>)

Internal == \/ OutOfTime \/ OutOfIterations \/ OutOfConvexifications \/ Convexify \/ BoxTiny
            \/ NoImprovement \/ Reject \/ Accept \/ Converged \/ LimitReached \/ AdjustPenalty \/ Return
-----------------------------------------------------------------------------
\* Properties
TypeOK == /\ pc \in {"convex", "tr", "judge", "penalty", "limit", "done"}
          /\ Len(coef) = Len(best.v) /\ box >= 0 /\ nfail <= P.maxfail + 1
\* C01: the incumbent's merit never gets worse, and it moves only to the candidate of the current QP
MeritMonotone == [][(best' # best /\ P' = P) =>
                     (/\ Merit(best'.c, best'.v, coef) <= Merit(best.c, best.v, coef)
                      /\ best'.id = cand.id /\ Acceptable(P, coef, best, cand)
                      /\ coef' = coef)]_vars
\* C02: truthful status, bounded work
StatusTrue == (pc = "done") =>
  /\ status \in {"converged", "time", "iter", "penlimit", "failed", "stopped"}
  /\ status = "converged" => Feasible(P, best.v)
  /\ status = "time" => clock > P.maxtime
  /\ status = "iter" => nqp >= P.maxit
  /\ status = "penlimit" => pen >= P.maxinc
  /\ status = "failed" <=> nfail > P.maxfail
RoundsBounded == pen <= Max2(P.maxinc, 0) /\ nconv <= P.maxconv
NoQPAfterStop == [][(status \in {"stopped", "failed"}) => (nqp' = nqp)]_vars
BudgetKept == [][(nconv' > nconv) => (nqp < P.maxit /\ clock <= P.maxtime)]_vars
\* C03: only the declared factors change the box; no QP below the smallest box
BoxSchedule == [][(box' # box /\ P' = P) =>
                   \/ (box' * P.shrink[2] = box * P.shrink[1])
                   \/ (box' * P.expand[2] = box * P.expand[1] /\ best'.id = cand.id)
                   \/ (box' = P.minbox /\ nfail' = P.maxfail)
                   \/ (box' = Floor(P) /\ pen' = pen + 1)]_vars
QPBoxOK == [][(nqp' # nqp /\ P' = P) => (box >= P.minbox)]_vars
CoefGrow == [][(coef' # coef /\ P' = P) =>
                (pen' = pen + 1 /\ \A i \in DOMAIN coef : coef'[i] \in {coef[i], coef[i] * P.ratio})]_vars
\* C04: the QP that is solved is the current one
QPCurrent == [][(nqp' # nqp /\ P' = P) => (lin = best.id /\ qpcoef = coef)]_vars
=============================================================================
