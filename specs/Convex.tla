------------------------------- MODULE Convex -------------------------------
(* Convex approximations of costs and constraints (sco::ConvexObjective, ConvexConstraints, Cost/ConstraintFrom*Func), their
   life in a convex model, and the helpers of the problem that holds the variables.
   A row of an error function is <<c, a, q, p>>: c + sum a_i x_i + sum q_i x_i^2 + p x_1 x_2, over the variables of the function. *)
EXTENDS Integers, Sequences, FiniteSets
Big == 20000
INF == 1000000000
Abs(v) == IF v < 0 THEN -v ELSE v
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + SumTo(f, k - 1)
Rng(s) == {s[i] : i \in DOMAIN s}

-----------------------------------------------------------------------------
(* functions and their linearisation *)
Loc(vars, X) == [i \in DOMAIN vars |-> X[vars[i]]]
Eval(r, x) == r[1] + SumTo(LAMBDA i : r[2][i] * x[i] + r[3][i] * x[i] * x[i], Len(x)) + (IF Len(x) >= 2 THEN r[4] * x[1] * x[2] ELSE 0)
Cross(r, x, i) == IF Len(x) < 2 \/ i > 2 THEN 0 ELSE r[4] * x[3 - i]
Grad(r, x) == [i \in DOMAIN x |-> r[2][i] + 2 * r[3][i] * x[i] + Cross(r, x, i)]
Lin(r, x0, x) == Eval(r, x0) + SumTo(LAMBDA i : Grad(r, x0)[i] * (x[i] - x0[i]), Len(x))
Pen(kind, v) == CASE kind = "sq" -> v * v
                  [] kind = "abs" -> Abs(v)
                  [] kind = "hinge" -> MaxI(v, 0)
                  [] kind = "eq" -> Abs(v)
                  [] kind = "ineq" -> MaxI(v, 0)
W(w, i) == IF w = <<>> THEN 1 ELSE w[i]
\* the exact value of a cost, the values and violations of a constraint, at a point of the problem
CostVal(o, X) == SumTo(LAMBDA i : W(o.w, i) * Pen(o.kind, Eval(o.rows[i], Loc(o.vars, X))), Len(o.rows))
CntVal(o, X) == [i \in DOMAIN o.rows |-> W(o.w, i) * Eval(o.rows[i], Loc(o.vars, X))]
CntViol(o, X) == [i \in DOMAIN o.rows |-> Pen(o.kind, CntVal(o, X)[i])]
\* what the convex approximation is worth at a point: the penalty of the linearised error times its weight
ModelVal(o, X) == SumTo(LAMBDA i : W(o.w, i) * Pen(o.kind, Lin(o.rows[i], Loc(o.vars, o.x0), Loc(o.vars, X))), Len(o.rows))
\* the rows of a constraint that are handed to the model: those whose weight is not zero
Kept(o) == SelectSeq([i \in 1..Len(o.rows) |-> i], LAMBDA i : W(o.w, i) # 0)
LinRow(o, k, X) == W(o.w, Kept(o)[k]) * Lin(o.rows[Kept(o)[k]], Loc(o.vars, o.x0), Loc(o.vars, X))

(* an objective put together by hand: calls [c |-> what, k |-> coefficient, rows |-> <<affine rows <<c, a>> over all base variables>>] *)
Aff(r, X) == r[1] + SumTo(LAMBDA i : r[2][i] * X[i], Len(r[2]))
RECURSIVE SeqMax(_)
SeqMax(s) == IF Len(s) = 1 THEN s[1] ELSE MaxI(s[1], SeqMax(Tail(s)))
CallVal(c, X) ==
  LET v == [i \in DOMAIN c.rows |-> Aff(c.rows[i], X)] IN
  CASE c.c = "aff" -> v[1]
    [] c.c = "sqr" -> c.k * v[1] * v[1]                      \* a quadratic expression: k times the square of a row
    [] c.c = "hinge" -> c.k * MaxI(v[1], 0)
    [] c.c = "abs" -> c.k * Abs(v[1])
    [] c.c = "hinges" -> SumTo(LAMBDA i : MaxI(v[i], 0), Len(v))
    [] c.c = "l1" -> SumTo(LAMBDA i : Abs(v[i]), Len(v))
    [] c.c = "l2" -> SumTo(LAMBDA i : v[i] * v[i], Len(v))
    [] c.c = "max" -> SeqMax(v)
CallsVal(cs, X) == SumTo(LAMBDA i : CallVal(cs[i], X), Len(cs))

-----------------------------------------------------------------------------
(* The value of a convex model at a point of the base variables 1..n: its objective minimised over the auxiliary variables.
   Objective [c, a |-> <<<<var, coef>>..>>, q |-> <<<<var, var, coef>>..>>]; rows [k, t (0: = 0, 1: <= 0), c, a]; ab = bounds of
   the auxiliary variables, <<<<var, lo, hi>>..>>. The auxiliary part is a linear program that falls into components of one
   or two variables; its optimum is at a vertex. Values are fractions <<num, den>>, den > 0; <<1, 0>> means infeasible. *)
BasePart(e, n, X) == e.c + SumTo(LAMBDA i : IF e.a[i][1] <= n THEN e.a[i][2] * X[e.a[i][1]] ELSE 0, Len(e.a))
QuadPart(o, X) == SumTo(LAMBDA i : o.q[i][3] * X[o.q[i][1]] * X[o.q[i][2]], Len(o.q))
QuadOnBase(o, n) == \A i \in DOMAIN o.q : o.q[i][1] <= n /\ o.q[i][2] <= n
CoefOf(e, v) == SumTo(LAMBDA i : IF e.a[i][1] = v THEN e.a[i][2] ELSE 0, Len(e.a))
AuxOf(e, n) == {e.a[i][1] : i \in DOMAIN e.a} \ 1..n
Lt(f, g) == IF g[2] = 0 THEN f[2] # 0 ELSE IF f[2] = 0 THEN FALSE ELSE f[1] * g[2] < g[1] * f[2]
Plus(f, g) == IF f[2] = 0 \/ g[2] = 0 THEN <<1, 0>> ELSE IF f[2] = g[2] THEN <<f[1] + g[1], f[2]>> ELSE <<f[1] * g[2] + g[1] * f[2], f[2] * g[2]>>
Least(S) == IF S = {} THEN <<1, 0>> ELSE CHOOSE f \in S : \A g \in S : ~Lt(g, f)
Norm(n, d) == IF d < 0 THEN <<-n, -d>> ELSE <<n, d>>
\* one variable: conditions <<t, c, k>>: c + k v (= or <=) 0
Min1(conds, k) ==
  LET cand == {Norm(-s[2], s[3]) : s \in {s \in conds : s[3] # 0}}
      ok(f) == \A s \in conds : LET v == s[2] * f[2] + s[3] * f[1] IN IF s[1] = 0 THEN v = 0 ELSE v <= 0
  IN Least({<<k * f[1], f[2]>> : f \in {f \in cand : ok(f)}})
\* two variables: conditions <<t, c, k1, k2>>
Min2(conds, k1, k2) ==
  LET det(s, r) == s[3] * r[4] - s[4] * r[3]
      pt(s, r) == LET d == det(s, r) sg == IF d < 0 THEN -1 ELSE 1 IN <<sg * (s[4] * r[2] - r[4] * s[2]), sg * (r[3] * s[2] - s[3] * r[2]), sg * d>>
      cand == {pt(x[1], x[2]) : x \in {x \in conds \X conds : det(x[1], x[2]) # 0}}
      ok(f) == \A s \in conds : LET v == s[2] * f[3] + s[3] * f[1] + s[4] * f[2] IN IF s[1] = 0 THEN v = 0 ELSE v <= 0
  IN Least({<<k1 * f[1] + k2 * f[2], f[3]>> : f \in {f \in cand : ok(f)}})
BoundConds(ab, v) == LET b == CHOOSE x \in Rng(ab) : x[1] = v IN {<<1, MaxI(b[2], -Big), -1>>, <<1, -MinI(b[3], Big), 1>>}
RECURSIVE Closure(_, _, _)
Closure(S, rows, n) == LET T == S \cup UNION {AuxOf(r, n) : r \in {r \in Rng(rows) : AuxOf(r, n) \cap S # {}}} IN IF T = S THEN S ELSE Closure(T, rows, n)
Comps(aux, rows, n) == {Closure({v}, rows, n) : v \in aux}
CompMin(o, rows, ab, n, X, C) ==
  LET mine == {r \in Rng(rows) : AuxOf(r, n) \cap C # {}}
      v == CHOOSE u \in C : \A t \in C : u <= t
      u == CHOOSE s \in C : \A t \in C : s >= t
  IN IF Cardinality(C) = 1
     THEN Min1({<<r.t, BasePart(r, n, X), CoefOf(r, v)>> : r \in mine} \cup BoundConds(ab, v), CoefOf(o, v))
     ELSE Min2({<<r.t, BasePart(r, n, X), CoefOf(r, v), CoefOf(r, u)>> : r \in mine}
               \cup {<<b[1], b[2], b[3], 0>> : b \in BoundConds(ab, v)} \cup {<<b[1], b[2], 0, b[3]>> : b \in BoundConds(ab, u)},
               CoefOf(o, v), CoefOf(o, u))
RECURSIVE SumComps(_, _, _, _, _, _)
SumComps(o, rows, ab, n, X, Cs) ==
  IF Cs = {} THEN <<0, 1>> ELSE LET C == CHOOSE C \in Cs : TRUE IN Plus(CompMin(o, rows, ab, n, X, C), SumComps(o, rows, ab, n, X, Cs \ {C}))
\* rows without auxiliary variables restrict the base variables: an approximation of a cost must have none that fails anywhere
MinAux(o, rows, ab, n, X) ==
  IF \E r \in Rng(rows) : AuxOf(r, n) = {} /\ (IF r.t = 0 THEN BasePart(r, n, X) # 0 ELSE BasePart(r, n, X) > 0) THEN <<1, 0>>
  ELSE Plus(<<BasePart(o, n, X) + QuadPart(o, X), 1>>, SumComps(o, rows, ab, n, X, Comps({b[1] : b \in Rng(ab)}, rows, n)))
\* components of more than two variables are not understood
Readable(o, rows, ab, n) == /\ QuadOnBase(o, n)
                            /\ \A r \in Rng(rows) : AuxOf(r, n) \subseteq {b[1] : b \in Rng(ab)}
                            /\ AuxOf(o, n) \subseteq {b[1] : b \in Rng(ab)}
                            /\ \A C \in Comps({b[1] : b \in Rng(ab)}, rows, n) : Cardinality(C) <= 2
IsVal(f, v) == f[2] # 0 /\ f[1] = v * f[2]

-----------------------------------------------------------------------------
(* second order approximations of a scalar function (one row); coefficients at a scale of K with tolerance *)
K == 1000
Hess(r, i, j) == IF i = j THEN 2 * r[3][i] ELSE IF {i, j} = {1, 2} THEN r[4] ELSE 0
Near(a, b, tol) == Abs(a - b) <= tol
QCoef(o, u, v) == SumTo(LAMBDA i : IF {o.q[i][1], o.q[i][2]} = {u, v} THEN o.q[i][3] ELSE 0, Len(o.q))
ApproxVal(o, n, X) == BasePart(o, n, X) + QuadPart(o, X)
ApproxGrad(o, n, X, v) == CoefOf(o, v) + SumTo(LAMBDA u : QCoef(o, u, v) * X[u] * (IF u = v THEN 2 ELSE 1), n)
Tol == 60
C10(v) == v \div 10
Psd2(a, b, c) == a >= -1 /\ b >= -1 /\ 4 * a * b - c * c >= -(20 + 4 * (Abs(a) + Abs(b) + Abs(c)))
PsdH(r, m) == Hess(r, 1, 1) >= 0 /\ (m = 2 => Hess(r, 2, 2) >= 0 /\ Hess(r, 1, 1) * Hess(r, 2, 2) >= r[4] * r[4])
SecondOrderOK(o, d, n) ==
  LET r == o.rows[1]  x == Loc(o.vars, o.x0)  m == Len(o.vars) IN
  /\ \A i \in DOMAIN d.a : d.a[i][1] \in Rng(o.vars)
  /\ \A i \in DOMAIN d.q : d.q[i][1] \in Rng(o.vars) /\ d.q[i][2] \in Rng(o.vars)
  /\ Near(ApproxVal(d, n, o.x0), K * Eval(r, x), Tol)
  /\ \A i \in 1..m : Near(ApproxGrad(d, n, o.x0, o.vars[i]), K * Grad(r, x)[i], Tol)
  /\ IF o.kind = "fdiag"
     THEN \A i, j \in 1..m : i <= j => Near(QCoef(d, o.vars[i], o.vars[j]), IF i = j THEN (K * MaxI(Hess(r, i, i), 0)) \div 2 ELSE 0, Tol)
     ELSE /\ PsdH(r, m) => \A i, j \in 1..m : i <= j => Near(QCoef(d, o.vars[i], o.vars[j]), IF i = j THEN (K * Hess(r, i, i)) \div 2 ELSE K * Hess(r, i, j), Tol)
          /\ (m = 1) => QCoef(d, o.vars[1], o.vars[1]) >= -Tol
          /\ (m = 2) => LET a == QCoef(d, o.vars[1], o.vars[1])  b == QCoef(d, o.vars[2], o.vars[2])  c == QCoef(d, o.vars[1], o.vars[2]) IN
                      /\ Psd2(C10(a), C10(b), C10(c))
                      /\ Psd2(C10(a - (K \div 2) * Hess(r, 1, 1)), C10(b - (K \div 2) * Hess(r, 2, 2)), C10(c - K * r[4]))

-----------------------------------------------------------------------------
(* feasible points; everything at a scale of K *)
Inside(y, lo, hi) == y >= lo /\ y <= hi
Clamp(x, lo, hi) == MinI(MaxI(x, lo), hi)
WellInside(x, lo, hi, d) == (lo = -INF \/ x >= lo + d) /\ (hi = INF \/ x <= hi - d)
\* a point inside by the margin is left alone, any other moves inside, no further than the margin from the closest point
FeasOK(y, x, lo, hi, d) == /\ Inside(y, lo, hi)
                           /\ IF WellInside(x, lo, hi, d) THEN y = x ELSE Abs(y - Clamp(x, lo, hi)) <= d

-----------------------------------------------------------------------------
(* The life of approximations in a model: st = [n, objs, lin]; an object is [aux, rows, st]. *)
Alive(st) == {i \in DOMAIN st.objs : st.objs[i].st # "gone"}
LiveVars(st) == 1..st.n \cup UNION {st.objs[i].aux : i \in Alive(st)}
LiveRows(st) == st.lin \cup UNION {st.objs[i].rows : i \in Alive(st)}
Build(st, aux) == [st EXCEPT !.objs = Append(@, [aux |-> aux, rows |-> {}, st |-> "built"])]
AddToModel(st, i, rows) == [st EXCEPT !.objs[i] = [@ EXCEPT !.rows = rows, !.st = "added"]]
Drop(st, i) == [st EXCEPT !.objs[i].st = "gone"]
=============================================================================
