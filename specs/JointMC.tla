------------------------------ MODULE JointMC ------------------------------
\* The differences of every small configuration: zero for lower-degree motions, constant for the matching degree,
\* the Jacobian is their derivative; splitting an interval keeps what is allowed.
EXTENDS Joint, TLC, Json
VARIABLES t, x, g
vars == <<t, x, g>>
Gaps == {0, 1, 2}
\* columns of n time steps of d joints, with gap entries before each
Cols(n, d, gap) == [i \in 1..n |-> gap * i + d * (i - 1)]
NX(u, gap) == u.ns[Len(u.ns)] + u.d + gap
Orders == 0..3
Least(o) == CASE o = 0 -> 1 [] o = 1 -> 2 [] o = 2 -> 4 [] OTHER -> 6
Term(o, d, n, gap) == [o |-> o, d |-> d, ns |-> Cols(n, d, gap), lo |-> [k \in 1..d |-> k], hi |-> [k \in 1..d |-> k + (IF o = 0 THEN k % 2 ELSE 0)], w |-> [k \in 1..d |-> k + 1]]
Power(i, e) == IF e = 0 THEN 1 ELSE IF e = 1 THEN i ELSE IF e = 2 THEN i * i ELSE i * i * i
Init == t = [o |-> 9] /\ x = <<>> /\ g = 0
Choose == /\ t.o = 9
          /\ \E o \in Orders, d \in 1..3, gap \in Gaps, m \in 0..2 :
               LET n == IF o = 0 THEN 1 ELSE Least(o) + m u == Term(o, d, n, gap) IN
               /\ t' = u /\ g' = gap
               /\ \E e \in 0..3 : x' = [c \in 1..NX(u, gap) |-> IF \E i \in 1..n : c - 1 - u.ns[i] \in 0..(d - 1)
                                          THEN LET i == CHOOSE i \in 1..n : c - 1 - u.ns[i] \in 0..(d - 1) IN (c - u.ns[i]) * Power(i, e)
                                          ELSE 7 * c]
Spec == Init /\ [][Choose]_vars
Ready == t.o < 9
\* the motion has degree e with joint k moving as (k+1) * i^e
DegreeOK == Ready => \A i \in 0..(Steps(t.o, Len(t.ns)) - 1) : \A k \in 0..(t.d - 1) :
   LET v == Value(t, x, i, k) q(j) == x[t.ns[j] + k + 1] IN
   /\ (t.o >= 1 /\ (\A j \in 1..Len(t.ns) : q(j) = q(1))) => v = 0
   /\ (\A j \in 1..Len(t.ns) : q(j) = (k + 1) * Power(j, t.o)) => v = (k + 1) * (CASE t.o = 3 -> 6 [] t.o = 2 -> 2 [] OTHER -> 1)
\* derivative: moving one entry moves the value by the entry of the Jacobian
JacIsDerivative == Ready => \A c \in 1..Len(x) : LET y == [x EXCEPT ![c] = @ + 1] IN
   \A i \in 0..(Steps(t.o, Len(t.ns)) - 1) : \A k \in 0..(t.d - 1) : Value(t, y, i, k) - Value(t, x, i, k) = Deriv(t, i, k, c - 1)
\* squared cost: second difference and slope agree (exact for a quadratic): C(x+e) - C(x-e) = 2 C'(x) when no limit is crossed
Ones == [r \in 1..NRows(t) |-> r]
CostSlope == (Ready /\ t.o > 0 /\ t.d < 3) => \A c \in 1..Len(x) :
   Squared(t, Ones, [x EXCEPT ![c] = @ + 1]) - Squared(t, Ones, [x EXCEPT ![c] = @ - 1]) = 2 * SquaredD(t, Ones, x, c - 1)
PrintScn == PrintT(<<"SCN", ToJson([o |-> t'.o, d |-> t'.d, n |-> Len(t'.ns), gap |-> g'])>>)
=============================================================================
