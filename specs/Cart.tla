-------------------------------- MODULE Cart --------------------------------
(* Cartesian terms: a pose error between two frames of a robot, its Jacobian, lines, joint distances to IK solutions  *)
(* (trajopt_ifopt/src/constraints/cartesian_*.cpp, inverse_kinematics_constraint.cpp, trajopt/src/kinematic_terms.cpp)*)
(* Robots move along axes and turn about them by quarter turns, so every pose is an integer matrix and every velocity *)
(* an integer vector. Rotation errors are axis times angle; lengths and angles are in millionths.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(a) == IF a < 0 THEN -a ELSE a
Mega == 1000000
Axis(a) == CASE a = 1 -> <<1, 0, 0>> [] a = 2 -> <<0, 1, 0>> [] OTHER -> <<0, 0, 1>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Add(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Sub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Times(k, u) == <<k * u[1], k * u[2], k * u[3]>>
Zero == <<0, 0, 0>>
\* matrices as sequences of rows
Id == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
T(M) == <<<<M[1][1], M[2][1], M[3][1]>>, <<M[1][2], M[2][2], M[3][2]>>, <<M[1][3], M[2][3], M[3][3]>>>>
On(M, v) == <<Dot(M[1], v), Dot(M[2], v), Dot(M[3], v)>>
Mul(A, B) == LET C == T(B) IN <<On(C, A[1]), On(C, A[2]), On(C, A[3])>>
Quarter(a) == CASE a = 1 -> <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
                [] a = 2 -> <<<<0, 0, 1>>, <<0, 1, 0>>, <<-1, 0, 0>>>>
                [] OTHER -> <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
RECURSIVE Turn(_, _)
Turn(a, k) == IF k % 4 = 0 THEN Id ELSE Mul(Quarter(a), Turn(a, (k % 4) - 1))
\* poses
Here == [R |-> Id, p |-> Zero]
Then(A, B) == [R |-> Mul(A.R, B.R), p |-> Add(A.p, On(A.R, B.p))]
Seen(A, B) == [R |-> Mul(T(A.R), B.R), p |-> On(T(A.R), Sub(B.p, A.p))]   \* B seen from A

(* A robot: joints j(1..n), joint i carrying link i; par 0 is the world. Link n+1 is fixed in the world at w.fix.      *)
Joints(w) == Len(w.j)
Moved(j, x) == IF j.rev THEN [R |-> Turn(j.ax, x), p |-> Zero] ELSE [R |-> Id, p |-> Times(x, Axis(j.ax))]
RECURSIVE Poses(_, _, _)
Poses(w, q, i) == IF i = 0 THEN <<>> ELSE
  LET P == Poses(w, q, i - 1)  j == w.j[i]
      b == IF j.par = 0 THEN Here ELSE P[j.par]
  IN Append(P, Then(Then(b, [R |-> j.R, p |-> j.p]), Moved(j, q[i])))
All(w, q) == Append(Poses(w, q, Joints(w)), w.fix)
At(P, link) == IF link = 0 THEN Here ELSE P[link]
RECURSIVE Above(_, _)
Above(w, link) == IF link = 0 \/ link > Joints(w) THEN {} ELSE {link} \cup Above(w, w.j[link].par)
Active(w, link) == Above(w, link) # {}
\* velocity of a point c of the link when joint i moves: linear and angular, in the world
Vel(w, P, link, c, i) ==
  IF i \notin Above(w, link) THEN [v |-> Zero, w |-> Zero]
  ELSE LET j == w.j[i]  b == Then(At(P, j.par), [R |-> j.R, p |-> j.p])  a == On(b.R, Axis(j.ax))
       IN IF j.rev THEN [v |-> Cross(a, Sub(c, b.p)), w |-> a] ELSE [v |-> a, w |-> Zero]

(* Rotations: no turn, quarter turns about an axis, third turns about a diagonal; half turns are not judged            *)
Vee(M) == <<M[3][2] - M[2][3], M[1][3] - M[3][1], M[2][1] - M[1][2]>>
Kind(M) == LET w == Vee(M) IN IF w # Zero THEN Dot(w, w) ELSE IF M = Id THEN 0 ELSE 180
Judged(M) == Kind(M) # 180
\* axis times angle, in millionths
RotOf(M) == Times(IF Kind(M) = 4 THEN 785398 ELSE 1209200, Vee(M))
\* its derivative when the rotation is turned by v (from the left): the inverse left Jacobian of the exponential
RotSlope(M, v) ==
  LET a == Vee(M) IN
  CASE Kind(M) = 0 -> Times(Mega, v)
    [] Kind(M) = 4 -> LET u == <<a[1] \div 2, a[2] \div 2, a[3] \div 2>>  par == Times(Dot(u, v), u) IN
                      Add(Times(Mega, par), Sub(Times(785398, Sub(v, par)), Times(785398, Cross(u, v))))
    [] OTHER -> LET k == Dot(a, v) IN
                LET x == Cross(a, v)  F(i) == 604600 * v[i] + (395400 * k * a[i]) \div 3 - 604600 * x[i] IN <<F(1), F(2), F(3)>>

(* The error of a frame m seen from a frame b: fr says which link carries it                                           *)
Pose6(b, m) == LET s == Seen(b, m) IN Times(Mega, s.p) \o RotOf(s.R)
Slope6(w, P, bl, b, ml, m, i) ==
  LET vb == Vel(w, P, bl, b.p, i)  vm == Vel(w, P, ml, m.p, i)  s == Seen(b, m)
      dp == On(T(b.R), Sub(Sub(vm.v, vb.v), Cross(vb.w, Sub(m.p, b.p))))
      dr == RotSlope(s.R, On(T(b.R), Sub(vm.w, vb.w)))
  IN Times(Mega, dp) \o dr
Near(a, b, tol) == Abs(a) <= 900000000 /\ Abs(a - b) <= tol
NearD(a, d, N, tol) == Abs(a) <= 60000000 /\ Near(a * d, N, tol * d)     \* a is N / d

(* t: [w, k, src, tgt, so, to, ...]. Which frame sees which: the target sees the source, but a source at rest sees a moving target *)
Viewer(t) == IF Active(t.w, t.tgt) /\ ~Active(t.w, t.src) THEN "src" ELSE "tgt"
ViewerOf(t) == IF t.k = "dyn" THEN "tgt" ELSE Viewer(t)
BLink(t) == IF ViewerOf(t) = "src" THEN t.src ELSE t.tgt
MLink(t) == IF ViewerOf(t) = "src" THEN t.tgt ELSE t.src
BOff(t) == IF ViewerOf(t) = "src" THEN t.so ELSE t.to
MOff(t) == IF ViewerOf(t) = "src" THEN t.to ELSE t.so
Base(t, P) == Then(At(P, BLink(t)), BOff(t))
Mov(t, P) == Then(At(P, MLink(t)), MOff(t))

(* Rows of a pose constraint: components with a coefficient, ranges split in two if asked for. Bounds are <<lo, hi>>    *)
Inf == 1000000000
IsRange(b) == b[1] > -Inf /\ b[2] < Inf /\ b[1] # b[2]
RECURSIVE RowsFrom(_, _)
RowsFrom(t, i) ==
  IF i > 6 THEN <<>>
  ELSE (IF t.co[i] = 0 THEN <<>>
        ELSE IF t.split /\ IsRange(t.bnd[i]) THEN <<[c |-> i, co |-> t.co[i], b |-> <<t.bnd[i][1], Inf>>], [c |-> i, co |-> t.co[i], b |-> <<-Inf, t.bnd[i][2]>>]>>
        ELSE <<[c |-> i, co |-> t.co[i], b |-> t.bnd[i]]>>) \o RowsFrom(t, i + 1)
Chosen(t) == IF t.k = "pos" THEN [r \in DOMAIN RowsFrom(t, 1) |-> RowsFrom(t, 1)[r].c] ELSE [r \in DOMAIN t.idx |-> t.idx[r] + 1]
\* what sticks out of the band: t.lo, t.up are empty or six whole numbers
Band(t) == t.k \in {"cart", "dyn"} /\ t.lo # <<>>
Wide(t, c) == Band(t) /\ t.lo # t.up
Out(t, c, v) == IF ~Wide(t, c) THEN v ELSE IF v < Mega * t.lo[c] THEN v - Mega * t.lo[c] ELSE IF v > Mega * t.up[c] THEN v - Mega * t.up[c] ELSE 0
\* -1, 0, 1: inside the band, on its edge (the slope is one-sided), outside
Side(t, c, v) == IF ~Wide(t, c) THEN 1 ELSE IF v < Mega * t.lo[c] \/ v > Mega * t.up[c] THEN 1 ELSE IF v = Mega * t.lo[c] \/ v = Mega * t.up[c] THEN 0 ELSE -1
RowJudged(c, s) == c <= 3 \/ Judged(s.R)
ValueOK(t, P, val) ==
  LET b == Base(t, P)  m == Mov(t, P)  s == Seen(b, m)  e == Pose6(b, m)  c == Chosen(t) IN
  /\ Len(val) = Len(c)
  /\ \A r \in DOMAIN c : RowJudged(c[r], s) => Near(val[r], Out(t, c[r], e[c[r]]), 5)
SlopesOK(t, P, jac, cols, at) ==      \* cols columns, the joints from column at on
  LET b == Base(t, P)  m == Mov(t, P)  s == Seen(b, m)  e == Pose6(b, m)  c == Chosen(t)  n == Joints(t.w)
      D == TLCEval([i \in 1..n |-> Slope6(t.w, P, BLink(t), b, MLink(t), m, i)]) IN
  /\ Len(jac) = Len(c)
  /\ \A r \in DOMAIN c :
       /\ Len(jac[r]) = cols
       /\ \A v \in 1..cols : (v < at \/ v >= at + n) => jac[r][v] = 0
       /\ (RowJudged(c[r], s) /\ Side(t, c[r], e[c[r]]) # 0) =>
            \A i \in 1..n : Near(jac[r][at + i - 1], IF Side(t, c[r], e[c[r]]) = 1 THEN D[i][c[r]] ELSE 0, 2000)

(* Lines: from t.to to t.to2, both on the target link                                                                  *)
LineA(t, P) == Then(At(P, t.tgt), t.to)
LineB(t, P) == Then(At(P, t.tgt), t.to2)
Along(a, b, c) == Dot(Sub(c, a), Sub(b, a))
Den(a, b) == Dot(Sub(b, a), Sub(b, a))
Clamp(n, d) == IF n < 0 THEN 0 ELSE IF n > d THEN d ELSE n
\* c minus the nearest point of the segment, times Den
Away(a, b, c) == Sub(Times(Den(a, b), Sub(c, a)), Times(Clamp(Along(a, b, c), Den(a, b)), Sub(b, a)))
LinePosOK(t, P, val, c) ==
  LET A == LineA(t, P)  B == LineB(t, P)  m == Mov([t EXCEPT !.k = "dyn"], P)
      d == Den(A.p, B.p)  x == Clamp(Along(A.p, B.p, m.p), d)  R == IF x > 0 /\ x = d THEN B.R ELSE A.R
      N == On(T(R), Away(A.p, B.p, m.p))[c]
  IN (A.R = B.R \/ x \in {0, d}) => (Abs(N) > 2000 \/ NearD(val, d, N * Mega, 10))
LineRotOK(t, P, val, c) ==
  LET A == LineA(t, P)  B == LineB(t, P)  m == Mov([t EXCEPT !.k = "dyn"], P)
      d == Den(A.p, B.p)  x == Clamp(Along(A.p, B.p, m.p), d)  AB == Mul(T(A.R), B.R)  AM == Mul(T(A.R), m.R)  BM == Mul(T(B.R), m.R) IN
  CASE x = 0 \/ A.R = B.R -> Judged(AM) => Near(val, RotOf(AM)[c], 5)
    [] x = d -> Judged(BM) => Near(val, RotOf(BM)[c], 5)
    [] Judged(AB) /\ AM = Id -> NearD(val, d, -x * RotOf(AB)[c], 10)
    [] Judged(AB) /\ AM = AB -> NearD(val, d, (d - x) * RotOf(AB)[c], 10)
    [] OTHER -> TRUE
LineValueOK(t, P, val) == LET c == Chosen(t) IN /\ Len(val) = Len(c) /\ \A r \in DOMAIN c : IF c[r] <= 3 THEN LinePosOK(t, P, val[r], c[r]) ELSE LineRotOK(t, P, val[r], c[r] - 3)
\* slopes: strictly beyond an end the end is the target, strictly between equal orientations the foot moves along
LineSlope(t, P, i, c) ==                  \* times Den where between
  LET A == LineA(t, P)  B == LineB(t, P)  m == Mov([t EXCEPT !.k = "dyn"], P)
      vm == Vel(t.w, P, t.src, m.p, i)  va == Vel(t.w, P, t.tgt, m.p, i)      \* the line's velocity where the source is
      rel == Sub(vm.v, va.v)  u == Sub(B.p, A.p)  d == Den(A.p, B.p)
  IN IF c <= 3 THEN On(T(A.R), Sub(Times(d, rel), Times(Dot(rel, u), u)))[c] ELSE RotSlope(Mul(T(A.R), m.R), On(T(A.R), Sub(vm.w, va.w)))[c - 3]
LineSlopesOK(t, P, jac, cols, at) ==
  LET A == LineA(t, P)  B == LineB(t, P)  m == Mov([t EXCEPT !.k = "dyn"], P)
      d == Den(A.p, B.p)  y == Along(A.p, B.p, m.p)  c == Chosen(t)  n == Joints(t.w) IN
  /\ Len(jac) = Len(c)
  /\ \A r \in DOMAIN c :
     /\ Len(jac[r]) = cols
     /\ \A v \in 1..cols : (v < at \/ v >= at + n) => jac[r][v] = 0
     /\ \A i \in 1..n : LET g == jac[r][at + i - 1] IN
        IF y < 0 \/ y > d
        THEN LET b == IF y < 0 THEN A ELSE B IN RowJudged(c[r], Seen(b, m)) => Near(g, Slope6(t.w, P, t.tgt, b, t.src, m, i)[c[r]], 2000)
        ELSE (y # 0 /\ y # d /\ A.R = B.R /\ RowJudged(c[r], Seen(A, m))) =>
             LET N == LineSlope(t, P, i, c[r]) IN
             IF c[r] > 3 THEN Near(g, N, 2000) ELSE (Abs(N) > 2000 \/ NearD(g, d, N * Mega, 2000))

(* Displacement of a link's point between two steps, both ways, against a limit *)
CartVel(t, P, Q) == LET a == Then(At(P, t.src), t.so).p  b == Then(At(Q, t.src), t.so).p IN
  [k \in 1..6 |-> IF k <= 3 THEN Mega * (b[k] - a[k] - t.lim) ELSE Mega * (a[k - 3] - b[k - 3] - t.lim)]
CartVelSlope(t, P, Q) == LET a == Then(At(P, t.src), t.so).p  b == Then(At(Q, t.src), t.so).p  n == Joints(t.w) IN
  [k \in 1..6 |-> [v \in 1..(2 * n) |->
     LET c == ((k - 1) % 3) + 1  g == IF v <= n THEN -Vel(t.w, P, t.src, a, v).v[c] ELSE Vel(t.w, Q, t.src, b, v - n).v[c]
     IN IF k <= 3 THEN Mega * g ELSE -Mega * g]]

(* The distance to the nearest of some joint solutions *)
Dist(a, b) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE (a[i] - b[i]) * (a[i] - b[i]) + S(i - 1) IN S(Len(a))
NearestOK(sols, x, val) == \E s \in DOMAIN sols : /\ \A o \in DOMAIN sols : Dist(sols[s], x) <= Dist(sols[o], x)
                                                  /\ val = [i \in DOMAIN x |-> sols[s][i] - x[i]]
=============================================================================
