---------------------------- MODULE TimedTermsMC ----------------------------
(* Every small timed term: its exact derivative against its own finite differences, what it is indifferent to.  *)
EXTENDS TimedTerms, TLC, Json
CONSTANTS MaxN, XS, RS
VARIABLES t, y
vars == <<t, y>>
None == [k |-> "none"]
Least(k) == CASE k = "vel" -> 2 [] k = "acc" -> 3 [] k = "jerk" -> 4 [] OTHER -> 1
Params(k) == IF k = "vel" THEN {[k |-> k, tg |-> g, up |-> b, lo |-> -c, lim |-> 0] : g \in {0, 2}, b \in {0, 1}, c \in {0, 3}}
             ELSE {[k |-> k, tg |-> 0, up |-> 0, lo |-> 0, lim |-> m] : m \in {0, 2}}
Init == t = None /\ y = <<>>
Choose == /\ t.k = "none"
          /\ \E k \in {"vel", "acc", "jerk", "time"} : \E n \in Least(k)..MaxN : \E u \in Params(k) :
             t' = u /\ IF k = "time" THEN \E r \in [1..n -> RS] : y' = r
                       ELSE \E x \in [1..n -> XS], r \in [1..n -> RS] : y' = x \o r
Spec == Init /\ [][Choose]_vars
Ready == t.k # "none"
\* moving every joint value by the same amount changes nothing
Shifted == [v \in DOMAIN y |-> IF t.k # "time" /\ v <= Half(y) THEN y[v] + 5 ELSE y[v]]
ShiftOK == (Ready /\ t.k # "time") => \A i \in 1..Rows(t, y) : Over(t, Shifted, i) = Over(t, y, i) /\ Under(t, Shifted, i) = Under(t, y, i)
\* the time variable of the first point belongs to no step
FirstOK == (Ready /\ t.k # "time") => \A i \in 1..Rows(t, y) : Slope(t, y, i, Half(y) + 1) = 0
\* the derivatives along x add up to nothing
TiltOK == (Ready /\ t.k # "time") => \A i \in 1..Rows(t, y) : SumTo([v \in 1..Half(y) |-> Slope(t, y, i, v)], Half(y)) = 0
\* the lower rows of a velocity term move against the upper ones, and both are satisfied exactly within the band
BandOK == (Ready /\ t.k = "vel") => \A i \in 1..(Half(y) - 1) :
          /\ \A v \in DOMAIN y : Slope(t, y, i, v) = -Slope(t, y, i + Half(y) - 1, v)
          /\ (Over(t, y, i) <= 0 /\ Over(t, y, i + Half(y) - 1) <= 0) <=> (Speed(y, i) - t.tg <= t.up /\ Speed(y, i) - t.tg >= t.lo)
\* steady motion: no acceleration, no jerk
Steady == t.k # "time" /\ \A i \in 2..(Half(y) - 1) : Speed(y, i) = Speed(y, 1)
SteadyOK == (Ready /\ t.k \in {"acc", "jerk"} /\ t.lim = 0 /\ Steady) => \A i \in 1..Rows(t, y) : Over(t, y, i) = 0
\* the secant over one unit lies between the slopes at its ends for the total time, which is convex and falling
TimeOK == (Ready /\ t.k = "time") => \A v \in DOMAIN y : Slope(t, y, 1, v) < 0
\* speeds are linear in each variable: the slope is the secant
SecantOK == (Ready /\ t.k = "vel") => \A i \in 1..Rows(t, y), v \in DOMAIN y : Over(t, [y EXCEPT ![v] = @ + 1], i) - Over(t, y, i) = Slope(t, y, i, v)
PrintScn == t'.k = "none" \/ PrintT(<<"SCN", ToJson([t |-> t', y |-> y'])>>)
=============================================================================
