------------------------------ MODULE LegacyMC ------------------------------
(* All runs of the optimizer within small budgets; the environment chooses what the convex solver answers. *)
EXTENDS Legacy, Json
CONSTANTS Params, Starts, CVals, VVals, Dts
VARIABLES s, last, hist, st0
vars == <<s, last, hist, st0>>
Vec(n, S) == [1..n -> S]
Cands == {[x |-> s.nqp + 1, c |-> c, v |-> v, ac |-> ac, av |-> av] :
            c \in Vec(Len(s.c), CVals), v \in Vec(Len(s.v), VVals), ac \in Vec(Len(s.c), CVals), av \in Vec(Len(s.v), VVals)}
NoCand == [x |-> -1, c |-> <<>>, v |-> <<>>, ac |-> <<>>, av |-> <<>>]
Init == \E p \in Params, b \in Starts : /\ s = Start0(p, 0, b.c, b.v, 0) /\ last = NoCand /\ hist = <<>> /\ st0 = b
Step(ok, n, dt) == [ok |-> ok, dt |-> dt, c |-> n.c, v |-> n.v, ac |-> n.ac, av |-> n.av]
Next == \/ s.pc = "start" /\ s' = Begin(s) /\ UNCHANGED <<last, hist, st0>>
        \/ s.pc = "cb" /\ s' = Convexified(s) /\ UNCHANGED <<last, hist, st0>>
        \/ s.pc = "solve" /\ \E dt \in Dts : /\ s' = Failed(s, dt) /\ last' = NoCand /\ hist' = Append(hist, Step(FALSE, NoCand, dt)) /\ st0' = st0
        \/ s.pc = "solve" /\ \E dt \in Dts, n \in Cands : \E t \in Solved(s, n, dt) : s' = t /\ last' = n /\ hist' = Append(hist, Step(TRUE, n, dt)) /\ st0' = st0
        \/ s.pc = "final" /\ s' = [s EXCEPT !.pc = "ret"] /\ UNCHANGED <<last, hist, st0>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == <<s, last, st0>>
\* --- what the optimizer declares
TypeOK == s.pc \in {"start", "cb", "solve", "final", "ret"} /\ (s.pc \in {"final", "ret"} <=> s.status # "running") /\ s.box >= 0
StatusTrue == s.pc = "ret" => /\ (s.status = "converged" => Feasible(s.p, s.v))
                              /\ (s.status = "time" => s.clock - s.t0 > s.p.maxtime)
                              /\ (s.status = "iter" => s.iter >= s.p.maxit /\ ~Feasible(s.p, s.v))
                              /\ (s.status = "penlimit" => s.pen >= s.p.maxinc)
                              /\ (s.status = "failed" => s.nfail > s.p.maxfail)
SolvableBox == s.pc = "solve" => s.box >= s.p.minbox
MeritMonotone == [][(s'.x # s.x) => (/\ s'.x = last'.x /\ s'.c = last'.c /\ s'.v = last'.v
                                     /\ Merit(s'.c, s'.v, s.coef) <= Merit(s.c, s.v, s.coef)
                                     /\ (Acceptable(s.p, s.coef, Best(s), last') \/ Vague(s, last').ratio))]_vars
BoxSchedule == [][(s'.box # s.box) => (\/ s'.box = Mul(s.box, s.p.shrink) \/ (s'.box = Mul(s.box, s.p.expand) /\ s'.nok > s.nok)
                                       \/ (s'.box = s.p.minbox /\ s'.nfail = s.p.maxfail) \/ (s'.pen > s.pen /\ s'.box = Floor(s.p)))]_vars
CoefSchedule == [][(s'.coef # s.coef) => (s'.pen = s.pen + 1 /\ ~Feasible(s.p, s.v) /\ (\A i \in DOMAIN s.coef : s'.coef[i] \in {s.coef[i], s.coef[i] * s.p.ratio})
                                          /\ (s.p.indiv => \A j \in DOMAIN s.coef : s'.coef[j] # s.coef[j] => s'.v[j] > s.p.tol))]_vars
Bounded == s.pen <= Max2(s.p.maxinc, 0) /\ s.cvn <= s.p.maxit * Max2(s.p.maxinc, 0) + 1
Terminates == <>(s.pc = "ret")
PrintDone == (s'.pc = "ret") => PrintT(<<"SCN", ToJson([P |-> s.p, c |-> st0.c, v |-> st0.v, steps |-> hist])>>)
Base == [thr |-> <<1, 4>>, shrink |-> <<1, 2>>, expand |-> <<2, 1>>, frac |-> <<>>, minbox |-> 8, box0 |-> 16, minimp |-> 1,
         maxit |-> 2, tol |-> 1, maxinc |-> 2, maxfail |-> 2, ratio |-> 2, maxtime |-> 100, coef0 |-> 1, indiv |-> TRUE]
SmallParams == {Base, [Base EXCEPT !.indiv = FALSE, !.maxfail = 0], [Base EXCEPT !.thr = <<0, 1>>, !.maxfail = 1, !.maxit = 1, !.tol = 2],
   [Base EXCEPT !.frac = <<1, 2>>, !.minimp = -2, !.thr = <<1, 1>>, !.maxit = 1], [Base EXCEPT !.maxinc = 0], [Base EXCEPT !.box0 = 4, !.maxit = 1],
   [Base EXCEPT !.maxinc = 1, !.maxfail = 3, !.box0 = 32, !.maxit = 1], [Base EXCEPT !.tol = 3, !.coef0 = 2, !.maxinc = 1],
   [Base EXCEPT !.maxtime = -1], [Base EXCEPT !.maxtime = 0], [Base EXCEPT !.expand = <<1, 4>>, !.maxit = 3]}
SmallStarts == {[c |-> <<2>>, v |-> <<>>], [c |-> <<1>>, v |-> <<2>>], [c |-> <<>>, v |-> <<2, 0>>]}
=============================================================================
