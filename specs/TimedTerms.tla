----------------------------- MODULE TimedTerms -----------------------------
(* Terms over joint values x(1..n) and their time variables r(1..n), r(i) belonging to the step that ends at i      *)
(* (trajopt/src/kinematic_terms.cpp), the total time, and the distance from a singularity.                           *)
(* A term's rows are fractions of polynomials in the variables; the Jacobian is the exact derivative of the fraction.*)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)
RECURSIVE ProdTo(_, _)
ProdTo(f, i) == IF i = 0 THEN 1 ELSE f[i] * ProdTo(f, i - 1)
Half(y) == Len(y) \div 2
X(y, i) == y[i]
R(y, i) == y[Half(y) + i]
Speed(y, i) == (X(y, i + 1) - X(y, i)) * R(y, i + 1)
AccN(y, i) == 2 * (Speed(y, i + 1) - Speed(y, i))
AccP(y, i) == R(y, i + 1) + R(y, i + 2)
JerkN(y, i) == 3 * (AccN(y, i + 1) * AccP(y, i) - AccN(y, i) * AccP(y, i + 1))
JerkP(y, i) == AccP(y, i) * AccP(y, i + 1) * (R(y, i + 1) + R(y, i + 2) + R(y, i + 3))
Others(y, i) == ProdTo([j \in DOMAIN y |-> IF j = i THEN 1 ELSE y[j]], Len(y))
\* u: [k, tg, up, lo, lim]; y: the variables
Rows(u, y) == CASE u.k = "vel" -> 2 * (Half(y) - 1) [] u.k = "acc" -> Half(y) - 2 [] u.k = "jerk" -> Half(y) - 3 [] OTHER -> 1
Over(u, y, i) ==
  CASE u.k = "vel" -> LET m == Half(y) - 1 IN IF i <= m THEN Speed(y, i) - u.tg - u.up ELSE u.lo - (Speed(y, i - m) - u.tg)
    [] u.k = "acc" -> AccN(y, i) - u.lim * AccP(y, i)
    [] u.k = "jerk" -> JerkN(y, i) - u.lim * JerkP(y, i)
    [] OTHER -> SumTo([j \in DOMAIN y |-> Others(y, j)], Len(y)) - u.lim * ProdTo(y, Len(y))
Under(u, y, i) ==
  CASE u.k = "vel" -> 1 [] u.k = "acc" -> AccP(y, i) [] u.k = "jerk" -> JerkP(y, i) [] OTHER -> ProdTo(y, Len(y))
\* exact for polynomials of degree four and less
Along(f(_), y, v) == LET F(d) == f([y EXCEPT ![v] = @ + d]) IN (8 * (F(1) - F(-1)) - (F(2) - F(-2))) \div 12
Slope(u, y, i, v) == LET N(z) == Over(u, z, i)  P(z) == Under(u, z, i) IN Along(N, y, v) * P(y) - N(y) * Along(P, y, v)
\* e: val times P, jac times P squared
TermOK(u, y, e) ==
  LET n == Rows(u, y) IN
  /\ e.p = [i \in 1..n |-> Under(u, y, i)]
  /\ e.val = [i \in 1..n |-> Over(u, y, i)]
SlopeOK(u, y, e) == e.jac = [i \in 1..Rows(u, y) |-> [v \in DOMAIN y |-> Slope(u, y, i, v)]]

(* A robot whose Jacobian has orthogonal columns: column j is s(j) times a unit vector, s(j) = a(j) + sum b(j)(k) q(k)  *)
Stretch(w, q, j) == w.a[j] + SumTo([k \in DOMAIN q |-> w.b[j][k] * q[k]], Len(q))
Smallest(w, q) == CHOOSE m \in {Abs(Stretch(w, q, j)) : j \in DOMAIN w.a} : \A j \in DOMAIN w.a : m <= Abs(Stretch(w, q, j))
Which(w, q) == {j \in DOMAIN w.a : Abs(Stretch(w, q, j)) = Smallest(w, q)}
\* the value is 1/(s+lambda) - 1/(1/10+lambda), reported times (s+lambda)(1+10 lambda)
Nearness(w, q) == LET P == Smallest(w, q) + w.lambda  T == 1 + 10 * w.lambda IN T - 10 * P
\* the Jacobian, reported times (s+lambda)^2: defined where one singular value is the smallest and not zero
Defined(w, q) == Cardinality(Which(w, q)) = 1 /\ Smallest(w, q) > 0
Pull(w, q) == LET j == CHOOSE j \in Which(w, q) : TRUE IN
              [k \in DOMAIN q |-> IF Stretch(w, q, j) > 0 THEN -w.b[j][k] ELSE w.b[j][k]]
\* joints of the sub-group, by name, in a bigger group
SubOf(sup, sub, x) == [j \in DOMAIN sub |-> x[CHOOSE i \in DOMAIN sup : sup[i] = sub[j]]]
Spread(sup, sub, g) == [i \in DOMAIN sup |-> IF \E j \in DOMAIN sub : sub[j] = sup[i] THEN g[CHOOSE j \in DOMAIN sub : sub[j] = sup[i]] ELSE 0]
=============================================================================
