----------------------------- MODULE SQPMCSmall -----------------------------
EXTENDS SQPMC
Base == [thr |-> <<1, 4>>, shrink |-> <<1, 2>>, expand |-> <<2, 1>>, frac |-> <<>>, minbox |-> 8, box0 |-> 16, minimp |-> 1,
         maxit |-> 4, tol |-> 1, maxinc |-> 2, maxfail |-> 2, ratio |-> 2, maxtime |-> 100, coef0 |-> 1, indiv |-> TRUE, maxconv |-> 99]
SmallParams ==
  {Base, [Base EXCEPT !.indiv = FALSE, !.maxfail = 0, !.maxinc = 3], [Base EXCEPT !.maxit = 2, !.thr = <<0, 1>>, !.maxfail = 1],
   [Base EXCEPT !.frac = <<1, 2>>, !.minimp = -2, !.thr = <<1, 1>>], [Base EXCEPT !.maxinc = 0], [Base EXCEPT !.maxit = 0],
   [Base EXCEPT !.box0 = 4, !.maxit = 2], [Base EXCEPT !.maxconv = 2, !.maxfail = 3],
   [Base EXCEPT !.tol = 2, !.coef0 = 2, !.maxinc = 1]}
TimeParams == {[Base EXCEPT !.maxtime = 0], [Base EXCEPT !.maxtime = -1], [Base EXCEPT !.maxtime = 1, !.maxit = 3]}
SmallStarts == {[c |-> <<2>>, v |-> <<>>], [c |-> <<1>>, v |-> <<2>>]}
TimeStarts == {[c |-> <<2>>, v |-> <<1>>]}
TwoStarts == {[c |-> <<1>>, v |-> <<1, 2>>], [c |-> <<>>, v |-> <<2, 0>>]}
=============================================================================
