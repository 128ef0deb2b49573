----------------------------- MODULE BoundsMC -----------------------------
EXTENDS Bounds, TLC, Json
CONSTANTS Depth
VARIABLES b, hist, x
Vals == {-INF, -6, -1, 0, 1, 6, INF}
Offs == {-4, 1, 3}
Ops == {[op |-> "set", a |-> l, b |-> h] : l \in Vals, h \in Vals} \cup {[op |-> p, a |-> v, b |-> 0] : p \in {"lo", "hi"}, v \in Vals}
       \cup {[op |-> p, a |-> v, b |-> 0] : p \in {"add", "sub"}, v \in Offs}
Init == b = [lo |-> 0, hi |-> 0] /\ hist = <<>> /\ x = 0
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : (o.op = "set" => Len(hist) = 0) /\ b' = Op(b, o) /\ hist' = Append(hist, o)
        /\ x' \in (IF Len(hist) = 0 THEN -8..8 ELSE {x})
Spec == Init /\ [][Next]_<<b, hist, x>>
Proper == b.lo <= b.hi /\ b.lo < INF /\ b.hi > -INF
Line == -20..20
\* the classification says which sides limit a value
KindOK == Proper => /\ (Kind(b.lo, b.hi) \in {"free", "upper"} <=> (\A y \in {-20} : b.lo < y))
                    /\ (Kind(b.lo, b.hi) = "eq" => b.hi - b.lo < EqTol)
MeasureOK == Proper =>
  /\ (Viol(x, b) = 0 <=> Inside(x, b)) /\ (Err(x, b) = 0 <=> Inside(x, b)) /\ Abs(Err(x, b)) = Viol(x, b)
  /\ Inside(Close(x, b), b) /\ Abs(Close(x, b) - x) = Viol(x, b)
  /\ \A y \in Line : Inside(y, b) => Abs(y - x) >= Viol(x, b)
  /\ (~Inside(x, b) => Inside(x - Err(x, b), b))
\* moving both limits and the value together changes no measure
ShiftOK == Proper => \A d \in Offs : LET c == Op(b, [op |-> "add", a |-> d, b |-> 0]) IN
  /\ Err(x + d, c) = Err(x, b) /\ Kind(c.lo, c.hi) = Kind(b.lo, b.hi)
LerpOK == \A n \in 2..5 : \A e \in {-5, 0, 7} : /\ Lerp(x, e, n, 0) = x * (n - 1) /\ Lerp(x, e, n, n - 1) = e * (n - 1)
             /\ \A i \in 1..(n - 1) : Lerp(x, e, n, i) - Lerp(x, e, n, i - 1) = e - x
PrintScn == (x' = 0 /\ Len(hist') = Depth) => PrintT(<<"SCN", ToJson(hist')>>)
=============================================================================
