----------------------------- MODULE ConvexMC -----------------------------
(* Histories of a problem with two variables: approximations are built, added, dropped, limits change, points are made
   feasible. Along with it the facts the trace specification relies on. *)
EXTENDS Convex, TLC, Json
CONSTANTS Depth
VARIABLES st, hist, probe
vars == <<st, hist, probe>>
n == 2
Kinds == {"sq", "abs", "hinge", "eq", "ineq"}
Rows1 == {<<1, <<2>>, <<0>>, 0>>, <<-1, <<1>>, <<2>>, 0>>, <<0, <<-1>>, <<-1>>, 0>>}
Rows2 == {<<1, <<2, -1>>, <<0, 0>>, 0>>, <<-2, <<1, 1>>, <<1, -1>>, 2>>, <<0, <<0, 3>>, <<0, 1>>, -1>>}
RowSets == {[vars |-> <<2>>, rows |-> <<r>>] : r \in Rows1} \cup {[vars |-> <<2, 1>>, rows |-> <<r, s>>] : r \in Rows2, s \in {<<0, <<0, 3>>, <<0, 1>>, -1>>}}
           \cup {[vars |-> <<1, 2>>, rows |-> <<r>>] : r \in Rows2}
Ws(k) == {<<>>} \cup (IF k = 1 THEN {<<0>>, <<3>>} ELSE {<<2, 1>>, <<0, 2>>})
X0s == {<<0, 0>>, <<1, -2>>}
Builds == UNION {{[op |-> "build", kind |-> k, vars |-> f.vars, rows |-> f.rows, w |-> w, x0 |-> x, num |-> x = <<1, -2>>] :
                     k \in Kinds, w \in Ws(Len(f.rows)), x \in X0s} : f \in RowSets}
Scalars == {[op |-> "build", kind |-> k, vars |-> f.vars, rows |-> f.rows, w |-> <<>>, x0 |-> x, num |-> FALSE] :
              k \in {"fdiag", "ffull"}, x \in X0s, f \in {f \in RowSets : Len(f.rows) = 1}}
A1 == <<1, <<2, 0>>>>
A2 == <<-1, <<1, -1>>>>
CallSets == {<<[c |-> c, k |-> 2, rows |-> <<A1>>]>> : c \in {"aff", "sqr", "hinge", "abs"}}
            \cup {<<[c |-> c, k |-> 1, rows |-> <<A1, A2>>], [c |-> d, k |-> 3, rows |-> <<A2>>]>> : c \in {"hinges", "l1", "l2", "max"}, d \in {"hinge", "abs", "max"}}
Manuals == {[op |-> "man", calls |-> c] : c \in CallSets}
Feas == {[op |-> "feas", x |-> <<a, b>>, d |-> d] : a \in {-3000, -999, 0, 1500}, b \in {1000, 1999, 2400}, d \in {0, 1, 700}}
Bnds == {[op |-> "bounds", all |-> a, vars |-> <<1, 2>>, lo |-> <<-1, l>>, hi |-> <<2, l + k>>] : a \in BOOLEAN, l \in {0, 2}, k \in {0, 1}}
NumAux(o) == IF o.op = "man" THEN 2 ELSE IF o.kind \in {"abs"} THEN 2 * Len(Kept(o)) ELSE IF o.kind = "hinge" THEN Len(Kept(o)) ELSE 0
FirstFree(s) == 1 + (CHOOSE m \in (LiveVars(s) \cup UNION {s.objs[i].aux : i \in DOMAIN s.objs}) : \A k \in (LiveVars(s) \cup UNION {s.objs[i].aux : i \in DOMAIN s.objs}) : k <= m)
RowsFrom(s, i) == {100 * i + j : j \in 1..2}

Init == st = [n |-> n, objs |-> <<>>, lin |-> {}] /\ hist = <<>> /\ probe = 0
\* the first build is chosen freely, later ones from a few
Few == {b \in Builds : b.kind = "abs" /\ b.x0 = <<1, -2>> /\ b.w = <<0, 2>> /\ b.rows[1][1] = 1}  \cup {m \in Manuals : Len(m.calls) = 2 /\ m.calls[1].c = "max" /\ m.calls[2].c = "abs"}
DoBuild(o) == st' = Build(st, FirstFree(st)..(FirstFree(st) + NumAux(o) - 1)) /\ hist' = Append(hist, o)
Next == /\ Len(hist) < Depth /\ probe' \in (IF hist = <<>> THEN 0..3 ELSE {probe})
        /\ \/ hist = <<>> /\ \E o \in Builds \cup Scalars \cup Manuals : DoBuild(o)
           \/ hist # <<>> /\ \E o \in Few : DoBuild(o)
           \/ \E i \in Alive(st) : st.objs[i].st = "built" /\ st' = AddToModel(st, i, RowsFrom(st, i)) /\ hist' = Append(hist, [op |-> "add", id |-> i])
           \/ \E i \in Alive(st), h \in {0, 1} : st' = Drop(st, i) /\ hist' = Append(hist, [op |-> "drop", id |-> i, how |-> h])
           \/ Len(hist) = 1 /\ \E o \in Bnds : st' = st /\ hist' = Append(hist, o)
           \/ Len(hist) = Depth - 1 /\ \E o \in Feas : st' = st /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars

\* --- the life cycle
LifeOK == /\ \A i, j \in DOMAIN st.objs : i # j => st.objs[i].aux \cap st.objs[j].aux = {}
          /\ 1..n \subseteq LiveVars(st)
          /\ (Alive(st) = {} => LiveVars(st) = 1..n /\ LiveRows(st) = st.lin)
          /\ \A i \in DOMAIN st.objs : st.objs[i].st = "gone" => st.objs[i].aux \cap LiveVars(st) = {} /\ st.objs[i].rows \cap LiveRows(st) = {}
\* --- a linearisation has the value and the slope of the function at its point, and what it leaves out is of second order
Pts == {<<a, b>> : a, b \in -2..2}
LinOK == \A o \in (IF Len(hist) = 1 /\ hist[1].op = "build" THEN {hist[1]} ELSE {}) : \A i \in DOMAIN o.rows : \A X \in Pts :
  LET r == o.rows[i]  x0 == Loc(o.vars, o.x0)  x == Loc(o.vars, X)  d == [j \in DOMAIN x |-> x[j] - x0[j]] IN
  /\ Lin(r, x0, x0) = Eval(r, x0)
  /\ Eval(r, x) - Lin(r, x0, x) = SumTo(LAMBDA j : r[3][j] * d[j] * d[j], Len(d)) + (IF Len(d) = 2 THEN r[4] * d[1] * d[2] ELSE 0)
\* --- minimising the encodings over their auxiliary variables gives the penalties
Affine(o, i) == LET r == o.rows[i] x0 == Loc(o.vars, o.x0) IN
  [c |-> Lin(r, x0, [j \in DOMAIN x0 |-> 0]), a |-> [j \in DOMAIN o.vars |-> <<o.vars[j], Grad(r, x0)[j]>>]]
Scaled(e, k) == [c |-> k * e.c, a |-> [j \in DOMAIN e.a |-> <<e.a[j][1], k * e.a[j][2]>>]]
EncObj(o) == LET kp == Kept(o) IN
  IF o.kind = "hinge" THEN [c |-> 0, a |-> [k \in DOMAIN kp |-> <<n + k, 1>>], q |-> <<>>]
  ELSE [c |-> 0, a |-> [k \in 1..(2 * Len(kp)) |-> <<n + k, 1>>], q |-> <<>>]
EncRows(o) == LET kp == Kept(o) IN
  [k \in DOMAIN kp |-> LET e == Scaled(Affine(o, kp[k]), W(o.w, kp[k])) IN
     IF o.kind = "hinge" THEN [k |-> k, t |-> 1, c |-> e.c, a |-> e.a \o <<<<n + k, -1>>>>]
     ELSE [k |-> k, t |-> 0, c |-> e.c, a |-> e.a \o <<<<n + 2 * k - 1, 1>>, <<n + 2 * k, -1>>>>]]
EncAb(o) == [k \in 1..(IF o.kind = "hinge" THEN Len(Kept(o)) ELSE 2 * Len(Kept(o))) |-> <<n + k, 0, INF>>]
EncOK == \A o \in (IF Len(hist) = 1 /\ hist[1].op = "build" /\ hist[1].kind \in {"abs", "hinge"} THEN {hist[1]} ELSE {}) : \A X \in {<<0, 0>>, <<1, -2>>, <<-2, 1>>} :
  /\ Readable(EncObj(o), EncRows(o), EncAb(o), n)
  /\ IsVal(MinAux(EncObj(o), EncRows(o), EncAb(o), n, X), ModelVal(o, X))
  \* an encoding without the auxiliary variables in its objective is recognised as worth less
  /\ ModelVal(o, X) > 0 => ~IsVal(MinAux([EncObj(o) EXCEPT !.a = <<>>], EncRows(o), EncAb(o), n, X), ModelVal(o, X))
\* --- second order approximations: the ideal one is accepted, others are not
Ideal(o) == LET r == o.rows[1] x == Loc(o.vars, o.x0) m == Len(o.vars)
                h(i) == MaxI(Hess(r, i, i), 0) IN
  [c |-> K * (Eval(r, x) - SumTo(LAMBDA i : Grad(r, x)[i] * x[i], m)) + (K \div 2) * SumTo(LAMBDA i : h(i) * x[i] * x[i], m),
   a |-> [i \in 1..m |-> <<o.vars[i], K * (Grad(r, x)[i] - h(i) * x[i])>>],
   q |-> [i \in 1..m |-> <<o.vars[i], o.vars[i], (K \div 2) * h(i)>>]]
SecondOK == \A o \in (IF Len(hist) = 1 /\ hist[1].op = "build" /\ hist[1].kind = "fdiag" THEN {hist[1]} ELSE {}) :
  /\ SecondOrderOK(o, Ideal(o), n)
  /\ ~SecondOrderOK(o, [Ideal(o) EXCEPT !.c = @ + 100], n)
  /\ ~SecondOrderOK(o, [Ideal(o) EXCEPT !.q[1][3] = @ + 100], n)
  /\ ~SecondOrderOK(o, [Ideal(o) EXCEPT !.a[1][2] = @ - 100], n)
\* --- there is always an admissible feasible point, and moving to the margin is one
Margin(lo, hi, d) == IF hi - lo < 2 * d THEN (hi - lo) \div 2 ELSE d
FeasSome == \A o \in (IF hist # <<>> /\ hist[Len(hist)].op = "feas" THEN {hist[Len(hist)]} ELSE {}) : \A i \in 1..2 : \A hi \in {1000, 1400, 3000} :
  LET d == IF o.d = 0 THEN 1 ELSE o.d  m == Margin(1000, hi, d) IN FeasOK(Clamp(o.x[i], 1000 + m, hi - m), o.x[i], 1000, hi, d)
Scn == [n |-> n, bounded |-> probe # 0, lo |-> <<-1, IF probe = 2 THEN 2 ELSE 1>>, hi |-> <<2, IF probe = 3 THEN INF ELSE 2>>, ops |-> hist']
PrintScn == (Len(hist') = Depth /\ RandomElement(1..600) = 1) => PrintT(<<"SCN", ToJson(Scn)>>)
=============================================================================
