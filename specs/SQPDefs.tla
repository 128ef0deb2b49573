------------------------------ MODULE SQPDefs ------------------------------
\* Judgement of candidates and penalties: definitions shared by the design (SQP) and the monitors (SQPMon).
\* Costs, violations and tolerances are integers in one unit, ratios are pairs <<numerator, denominator>>.
EXTENDS Integers, Sequences, FiniteSets, TLC
Sum(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i-1] + s[i] IN F[Len(s)]
Dot(s, t) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i-1] + s[i] * t[i] IN F[Len(s)]
MaxOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= x
Merit(c, v, k) == Sum(c) + Dot(v, k)
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Exact(a, q) == (a * q[1]) % q[2] = 0     \* a * q is representable
Mul(a, q) == (a * q[1]) \div q[2]

Feasible(p, v) == IF v = <<>> THEN TRUE ELSE MaxOf(v) < p.tol

\* --- judgement of a candidate: improvements predicted by the QP and really achieved
ApproxImp(k, b, n) == Merit(b.c, b.v, k) - Merit(n.ac, n.av, k)
ExactImp(k, b, n)  == Merit(b.c, b.v, k) - Merit(n.c, n.v, k)
\* predicted improvement / |merit| below the limit frac (a pair, or <<>> for none); the merit 0 counts as tiny
FracSmall(p, imp, m) == p.frac # <<>> /\
     (IF m = 0 THEN IF imp = 0 THEN p.frac[1] > 0 ELSE imp < 0 ELSE imp * p.frac[2] < p.frac[1] * Abs(m))
SmallImprove(p, k, b, n) == LET imp == ApproxImp(k, b, n)
                            IN imp < p.minimp \/ FracSmall(p, imp, Merit(b.c, b.v, k))
\* ratio exact/approx < threshold; the ratio is 0 when the predicted improvement is 0
RatioLow(p, ai, ei) == LET t == p.thr IN
     IF ai = 0 THEN t[1] > 0
     ELSE IF ai > 0 THEN ei * t[2] < t[1] * ai ELSE ei * t[2] > t[1] * ai
Acceptable(p, k, b, n) == LET ai == ApproxImp(k, b, n)  ei == ExactImp(k, b, n)
                          IN ei >= 0 /\ ~RatioLow(p, ai, ei)

\* --- penalty adjustment
Inflated(p, v, k) == [i \in DOMAIN k |-> IF ~p.indiv \/ v[i] > p.tol THEN k[i] * p.ratio ELSE k[i]]
FloorNum(p) == 3 * p.minbox * p.shrink[2]     \* floor = min / shrink * 3/2
FloorDen(p) == 2 * p.shrink[1]
Floor(p) == FloorNum(p) \div FloorDen(p)
Raised(p, b) == IF b * FloorDen(p) >= FloorNum(p) THEN b ELSE Floor(p)
=============================================================================
