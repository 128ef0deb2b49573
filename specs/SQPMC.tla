------------------------------- MODULE SQPMC -------------------------------
\* Bounded instance of the SQP design with the monitors attached; also generates scenarios.
EXTENDS SQP, SQPMon, Json
CONSTANTS Params, Starts, CVals, VVals, Dts, Emit
VARIABLES m,     \* monitor state
          bad,   \* clauses violated so far (must stay empty)
          cv,    \* convexifications so far
          hist   \* environment choices so far
mcvars == <<vars, m, bad, cv, hist>>

Vec(n, S) == [1..n -> S]
Start(s) == [id |-> 0, c |-> s.c, v |-> s.v]
NoCand == [id |-> 0, c |-> <<>>, v |-> <<>>, ac |-> <<>>, av |-> <<>>]
PenIdx(k) == IF k >= P.maxinc THEN Max2(P.maxinc - 1, 0) ELSE k
Snap(b, n, bx, k, pe) ==
  [bx |-> <<b.id>>, bc |-> b.c, bv |-> b.v, bm |-> Merit(b.c, b.v, k),
   nx |-> <<n.id>>, nc |-> n.c, nv |-> n.v, nm |-> IF n = NoCand THEN 0 ELSE Merit(n.c, n.v, k),
   ac |-> n.ac, av |-> n.av, am |-> IF n = NoCand THEN 0 ELSE Merit(n.ac, n.av, k),
   ai |-> IF n = NoCand THEN 0 ELSE ApproxImp(k, b, n), ei |-> IF n = NoCand THEN 0 ELSE ExactImp(k, b, n),
   box |-> <<bx>>, coef |-> k, pen |-> PenIdx(pe)]
\* observations in the state before (solve, cb) and after (ret) a step
Ev(kind, b, n, bx, k, pe, c) == [e |-> kind, R |-> Snap(b, n, bx, k, pe), exb |-> [c |-> b.c, v |-> b.v], exn |-> n,
                                 x |-> <<b.id>>, box |-> <<bx>>, coef |-> k, cv |-> c]
SolveEv(ok) == Ev("solve", best, cand, box, coef, pen, cv) @@
               [ok |-> ok, clock |-> clock, held |-> 0, cur |-> 0, boxed |-> TRUE, lin |-> <<lin>>, qpcoef |-> qpcoef]
CbEv(n, stop) == Ev("cb", best, n, box, coef, pen, cv) @@ [stop |-> stop, clock |-> clock]
RetEv == Ev("ret", best', cand', box', coef', pen', cv) @@ [status |-> status', clock |-> clock']

MCInit == \E p \in Params, s \in Starts :
            /\ Init0(p, Start(s)) /\ m = MonNew(p, 1, s.c, s.v) /\ bad = {} /\ cv = 0
            /\ hist = <<>>
Cands == LET nc == Len(best.c)  nv == Len(best.v) IN
         {[id |-> nqp + 1, c |-> c, v |-> v, ac |-> ac, av |-> av] :
             c \in Vec(nc, CVals), v \in Vec(nv, VVals), ac \in Vec(nc, CVals), av \in Vec(nv, VVals)}
MCSolved == \E n \in Cands, stop \in BOOLEAN, dt \in Dts :
              /\ QPSolved(n, stop, dt)
              /\ LET e1 == SolveEv(TRUE)  m1 == MonStep(m, e1)  e2 == CbEv(n, stop)
                 IN m' = MonStep(m1, e2) /\ bad' = bad \cup Bad(m, e1) \cup Bad(m1, e2)
              /\ hist' = Append(hist, [ok |-> TRUE, stop |-> stop, dt |-> dt, c |-> n.c, v |-> n.v, ac |-> n.ac, av |-> n.av])
              /\ cv' = cv
MCFails == \E dt \in Dts :
              /\ QPFails(dt)
              /\ LET e1 == SolveEv(FALSE) IN m' = MonStep(m, e1) /\ bad' = bad \cup Bad(m, e1)
              /\ hist' = Append(hist, [ok |-> FALSE, stop |-> FALSE, dt |-> dt, c |-> <<>>, v |-> <<>>, ac |-> <<>>, av |-> <<>>])
              /\ cv' = cv
MCInternal == /\ Internal
              /\ cv' = IF nconv' > nconv THEN cv + 1 ELSE cv
              /\ IF pc' = "done" THEN m' = MonStep(m, RetEv) /\ bad' = bad \cup Bad(m, RetEv)
                                 ELSE m' = m /\ bad' = bad
              /\ hist' = hist
MCNext == MCSolved \/ MCFails \/ MCInternal
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCNext)
MonitorsHold == bad = {}
Terminates == <>(pc = "done")
View == <<vars, m, bad, cv>>
\* one scenario per finished run
Scenario == [P |-> P, c |-> m.c, v |-> m.v, steps |-> hist]
PrintDone == (Emit /\ pc' = "done") => PrintT(<<"SCN", ToJson([P |-> P, c |-> m'.c0, v |-> m'.v0, steps |-> hist'])>>)
=============================================================================
