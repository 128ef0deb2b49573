------------------------------ MODULE QPModel ------------------------------
(* The convex subproblem of trajopt_sqp: what the assembled QP has to mean.  *)
(* A term is [name, kind, dyn, rows]; kind "sq", "abs", "hinge" (costs) or   *)
(* "cnt" (constraint); a row is [c, a, q, b, t, w]: the function             *)
(* c + a.x + sum q, its bound type ("eq", "lo", "up") with limit t, and its  *)
(* weight. A dynamic term shows only its active rows. All numbers integer.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == 1000000000
Abs(x) == IF x < 0 THEN -x ELSE x
Pos(x) == IF x > 0 THEN x ELSE 0
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
SumTo(n, F(_)) == LET S[i \in 0..n] == IF i = 0 THEN 0 ELSE S[i-1] + F(i) IN S[n]
Dot(u, v) == SumTo(Len(u), LAMBDA i : u[i] * v[i])
Sum(u) == SumTo(Len(u), LAMBDA i : u[i])

\* --- rows: value, gradient, linear model at lin evaluated at y
Val(r, x) == r.c + Dot(r.a, x) + SumTo(Len(r.q), LAMBDA k : r.q[k][3] * x[r.q[k][1]] * x[r.q[k][2]])
Grad(r, x) == [i \in DOMAIN x |-> r.a[i] + SumTo(Len(r.q), LAMBDA k :
                 (IF r.q[k][1] = i THEN r.q[k][3] * x[r.q[k][2]] ELSE 0) +
                 (IF r.q[k][2] = i THEN r.q[k][3] * x[r.q[k][1]] ELSE 0))]
Lin(r, lin, y) == Val(r, lin) + SumTo(Len(lin), LAMBDA i : Grad(r, lin)[i] * (y[i] - lin[i]))

\* distance of a value to the interval of the row
Viol(r, v) == CASE r.b = "eq" -> Abs(v - r.t) [] r.b = "lo" -> Pos(r.t - v) [] r.b = "up" -> Pos(v - r.t)

\* rows a dynamic term shows at x: a pure function of x, the same the driver's terms use
Shown(t, k, x) == IF t.dyn = 0 THEN TRUE ELSE (Sum(x) + 3 * k + 300) % t.dyn # 0
Rows(t, x) == SelectSeq([k \in DOMAIN t.rows |-> [r |-> t.rows[k], k |-> k]], LAMBDA e : Shown(t, e.k, x))

Cost(kind, r, v) == IF kind = "sq" THEN r.w * Viol(r, v) * Viol(r, v) ELSE r.w * Viol(r, v)
\* exact value of a term, and its value in the linear model
ExactTerm(t, x) == LET rs == Rows(t, x) IN SumTo(Len(rs), LAMBDA k :
                     IF t.kind = "cnt" THEN Viol(rs[k].r, Val(rs[k].r, x)) ELSE Cost(t.kind, rs[k].r, Val(rs[k].r, x)))
ConvexTerm(t, lin, y) == LET rs == Rows(t, lin) IN SumTo(Len(rs), LAMBDA k :
                     LET v == Lin(rs[k].r, lin, y) IN IF t.kind = "cnt" THEN Viol(rs[k].r, v) ELSE Cost(t.kind, rs[k].r, v))
\* what the QP minimises: costs plus penalty- and term-weighted violations of the linear model
Model(terms, mu, lin, y) == SumTo(Len(terms), LAMBDA j :
   LET t == terms[j]  rs == Rows(t, lin) IN SumTo(Len(rs), LAMBDA k :
     LET v == Lin(rs[k].r, lin, y) IN
     IF t.kind = "cnt" THEN mu[t.name] * rs[k].r.w * Viol(rs[k].r, v) ELSE Cost(t.kind, rs[k].r, v)))

-----------------------------------------------------------------------------
(* A QP [n, nv, nc, H, g, A, l, u]: minimise z'Hz + g'z with l <= Az <= u;   *)
(* the first n variables are the user's. The last nv rows are the limits of  *)
(* the variables. Every auxiliary variable is >= 0, has a cost >= 0 and      *)
(* occurs in one row, so the minimum over them can be taken row by row.      *)
NG(qp) == qp.nc - qp.nv
Aux(qp) == (qp.n + 1)..qp.nv
ShapeOK(qp) ==
  /\ qp.nv >= qp.n /\ qp.nc >= qp.nv
  /\ Len(qp.H) = qp.nv /\ \A i \in DOMAIN qp.H : Len(qp.H[i]) = qp.nv
  /\ Len(qp.g) = qp.nv /\ Len(qp.A) = qp.nc /\ \A i \in DOMAIN qp.A : Len(qp.A[i]) = qp.nv
  /\ Len(qp.l) = qp.nc /\ Len(qp.u) = qp.nc
StructureOK(qp) ==
  /\ \A i, j \in 1..qp.nv : (i > qp.n \/ j > qp.n) => qp.H[i][j] = 0
  /\ \A i, j \in 1..qp.n : qp.H[i][j] = qp.H[j][i]
  /\ \A i, j \in 1..qp.nv : qp.A[NG(qp) + i][j] = IF i = j THEN 1 ELSE 0
  /\ \A s \in Aux(qp) : /\ qp.l[NG(qp) + s] = 0 /\ qp.u[NG(qp) + s] = INF /\ qp.g[s] >= 0
                        /\ Cardinality({i \in 1..NG(qp) : qp.A[i][s] # 0}) = 1
                        /\ \A i \in 1..NG(qp) : qp.A[i][s] \in {-1, 0, 1}
\* cheapest way to bring row i into its limits when the user's variables are y; INF if there is none
RowCost(qp, i, y) ==
  LET v == SumTo(qp.n, LAMBDA j : qp.A[i][j] * y[j])
      up == {qp.g[s] : s \in {s \in Aux(qp) : qp.A[i][s] = 1}}
      dn == {qp.g[s] : s \in {s \in Aux(qp) : qp.A[i][s] = -1}}
      least(S) == CHOOSE a \in S : \A b \in S : a <= b
  IN IF v < qp.l[i] THEN (IF up = {} THEN INF ELSE (qp.l[i] - v) * least(up))
     ELSE IF v > qp.u[i] THEN (IF dn = {} THEN INF ELSE (v - qp.u[i]) * least(dn)) ELSE 0
QPMin(qp, y) == SumTo(qp.n, LAMBDA i : SumTo(qp.n, LAMBDA j : y[i] * qp.H[i][j] * y[j])) +
                SumTo(qp.n, LAMBDA i : qp.g[i] * y[i]) + SumTo(NG(qp), LAMBDA i : RowCost(qp, i, y))
\* the QP means the model: same differences between all points of Y
Means(qp, terms, mu, lin, Y) ==
  \A y \in Y : /\ \A i \in 1..NG(qp) : RowCost(qp, i, y) # INF
               /\ QPMin(qp, y) - QPMin(qp, lin) = Model(terms, mu, lin, y) - Model(terms, mu, lin, lin)

\* --- trust region: admissible interval of a variable at x (already clamped into its limits)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
BoxLo(x, b, lo, hi) == Max(Clamp(x, lo, hi) - b, lo)
BoxHi(x, b, lo, hi) == Min(Clamp(x, lo, hi) + b, hi)

-----------------------------------------------------------------------------
(* The construction used by the code: one auxiliary variable per one-sided   *)
(* row, two per equality row, squared costs expanded into H and g.           *)
RECURSIVE Flat(_, _, _, _)
Flat(terms, kinds, lin, mu) ==
  IF terms = <<>> THEN <<>>
  ELSE (IF Head(terms).kind \in kinds
        THEN LET rs == Rows(Head(terms), lin) IN [k \in DOMAIN rs |->
               [r |-> rs[k].r, cost |-> IF Head(terms).kind = "cnt" THEN mu[Head(terms).name] * rs[k].r.w ELSE rs[k].r.w]]
        ELSE <<>>) \o Flat(Tail(terms), kinds, lin, mu)
Build(terms, mu, lin, n) ==
  LET gr == Flat(terms, {"abs", "hinge", "cnt"}, lin, mu)
      sq == Flat(terms, {"sq"}, lin, mu)
      first[k \in 1..(Len(gr) + 1)] == IF k = 1 THEN n + 1 ELSE first[k-1] + (IF gr[k-1].r.b = "eq" THEN 2 ELSE 1)
      nv == first[Len(gr) + 1] - 1
      ng == Len(gr)
      const(r) == Val(r, lin) - Dot(Grad(r, lin), lin)
      owner(s) == CHOOSE k \in 1..ng : first[k] <= s /\ s < first[k + 1]
      sign(s) == LET k == owner(s) IN CASE gr[k].r.b = "lo" -> 1 [] gr[k].r.b = "up" -> -1
                                        [] gr[k].r.b = "eq" -> IF s = first[k] THEN 1 ELSE -1
  IN [n |-> n, nv |-> nv, nc |-> ng + nv,
      H |-> [i \in 1..nv |-> [j \in 1..nv |-> IF i > n \/ j > n THEN 0 ELSE
               SumTo(Len(sq), LAMBDA k : sq[k].cost * Grad(sq[k].r, lin)[i] * Grad(sq[k].r, lin)[j])]],
      g |-> [i \in 1..nv |-> IF i > n THEN gr[owner(i)].cost
               ELSE SumTo(Len(sq), LAMBDA k : 2 * sq[k].cost * (const(sq[k].r) - sq[k].r.t) * Grad(sq[k].r, lin)[i])],
      A |-> [i \in 1..(ng + nv) |-> [j \in 1..nv |->
               IF i > ng THEN (IF i - ng = j THEN 1 ELSE 0)
               ELSE IF j <= n THEN Grad(gr[i].r, lin)[j] ELSE IF owner(j) = i THEN sign(j) ELSE 0]],
      l |-> [i \in 1..(ng + nv) |-> IF i > ng THEN (IF i - ng <= n THEN -INF ELSE 0)
               ELSE IF gr[i].r.b = "up" THEN -INF ELSE gr[i].r.t - const(gr[i].r)],
      u |-> [i \in 1..(ng + nv) |-> IF i > ng THEN INF
               ELSE IF gr[i].r.b = "lo" THEN INF ELSE gr[i].r.t - const(gr[i].r)]]
=============================================================================
