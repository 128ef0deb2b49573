------------------------------ MODULE Collision ------------------------------
\* What the collision evaluators keep of a motion and what the collision constraints tell a solver about it.
\*
\* A motion goes from the joint values q0 to q1 (a single state for the discrete evaluator). The evaluator cuts it into
\* pieces no longer than lvs, asks the contact library about every piece, moves the answers to the whole motion, drops what
\* does not matter and groups the rest by the two shapes that touch. Times are counted in 48ths of the motion.
\*
\* Links 1..5: 2 and 4 move with the joints, 5 moves with the environment, 1 and 3 stand still.
\* A contact of a piece: a, b links, sh shapes, d distance, pa, pb points in the links' frames, n normal,
\*   t time of each link in quarters of the piece, s0, s1 change of the distance per unit of a joint at its start and end.
\* c (configuration): ev 1 single state, 2 states along the motion, 3 whole motion swept at once, 4 swept in pieces;
\*   dof, lvs, buf, dm, dc defaults, pm, pc margins and coefficients of single pairs, f0, f1 fixed ends, maxc rows.
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
None == -1000000000
Max2(x, y) == IF x >= y THEN x ELSE y
Min2(x, y) == IF x <= y THEN x ELSE y
Abs(x) == IF x < 0 THEN -x ELSE x
SumF(S, f(_)) == FoldSet(LAMBDA i, z : z + f(i), 0, S)
Mine(k) == k \in {2, 4}
\* ---------------------------------------------------------------- settings of a pair: the last one made, in either order
SamePair(m, a, b) == {m[1], m[2]} = {a, b}
LastOf(pm, a, b, dflt) == LET I == {i \in DOMAIN pm : SamePair(pm[i], a, b)} IN IF I = {} THEN dflt ELSE pm[Max(I)][3]
Margin(c, a, b) == LastOf(c.pm, a, b, c.dm)
Coef(c, a, b) == LastOf(c.pc, a, b, c.dc)
Muted(c, a, b) == (\E i \in DOMAIN c.pc : SamePair(c.pc[i], a, b)) /\ Coef(c, a, b) = 0
\* ---------------------------------------------------------------- pieces of a motion
Dist2(q0, q1) == SumF(DOMAIN q0, LAMBDA i : (q1[i] - q0[i]) * (q1[i] - q0[i]))
Pieces(c, q0, q1) == IF c.ev \in {1, 3} THEN 1
                     ELSE CHOOSE n \in 1..5 : n * n * c.lvs * c.lvs >= Dist2(q0, q1) /\ (n = 1 \/ (n - 1) * (n - 1) * c.lvs * c.lvs < Dist2(q0, q1))
Steps(c, n) == IF c.ev = 2 THEN 0..n ELSE 0..(n - 1)
Start(n, i) == (48 * i) \div n
End(c, n, i) == IF c.ev <= 2 THEN Start(n, i) ELSE (48 * (i + 1)) \div n
At(q0, q1, t) == [k \in DOMAIN q0 |-> q0[k] + ((q1[k] - q0[k]) * t) \div 48]
\* the states the library is asked about: start and end of every piece
Asked(c, q0, q1) == LET n == Pieces(c, q0, q1) IN
   {<<At(q0, q1, Start(n, i)), At(q0, q1, End(c, n, i))>> : i \in Steps(c, n)}
\* ---------------------------------------------------------------- a contact seen over the whole motion
\* type 0 at no time of its own (a link that does not move, or a single state), 1 at the start, 2 at the end, 3 in between
\* L: index of the piece whose end is the motion's end
WholeT(c, n, i, raw, m) == IF ~m \/ c.ev = 1 THEN 0 ELSE IF c.ev = 2 THEN Start(n, i) ELSE Start(n, i) + (raw * 12) \div n
WholeTy(c, n, i, L, raw, m) ==
   IF ~m \/ c.ev = 1 THEN 0
   ELSE IF c.ev = 2 THEN (IF i = 0 THEN 1 ELSE IF i = n THEN 2 ELSE 3)
   ELSE IF c.ev = 3 \/ n = 1 THEN (IF raw = 0 THEN 1 ELSE IF raw = 4 THEN 2 ELSE 3)
   ELSE IF i = 0 /\ raw = 0 THEN 1 ELSE IF i = L /\ raw = 4 THEN 2 ELSE 3
Whole(c, n, i, L, k) ==
   [a |-> k.a, b |-> k.b, sh |-> k.sh, d |-> k.d, p |-> <<k.pa, k.pb>>, n |-> k.n, s0 |-> k.s0, s1 |-> k.s1,
    t |-> <<WholeT(c, n, i, k.t[1], Mine(k.a)), WholeT(c, n, i, k.t[2], Mine(k.b))>>,
    ty |-> <<WholeTy(c, n, i, L, k.t[1], Mine(k.a)), WholeTy(c, n, i, L, k.t[2], Mine(k.b))>>,
    s |-> Start(n, i), e |-> End(c, n, i)]
Link(k, j) == IF j = 1 THEN k.a ELSE k.b
Movers(k) == {j \in 1..2 : Mine(Link(k, j))}
Near(c, k) == k.d <= Margin(c, k.a, k.b) + c.buf
\* something of the contact can still be changed: not all of it lies at an end that is fixed
AtFree(c, k) == IF c.ev = 1 THEN TRUE
   ELSE (~c.f0 /\ ~c.f1) \/ (c.f0 /\ \E j \in Movers(k) : k.ty[j] # 1) \/ (c.f1 /\ \E j \in Movers(k) : k.ty[j] # 2)
Relevant(c, k) == ~Muted(c, k.a, k.b) /\ Near(c, k) /\ AtFree(c, k)
\* w: the contacts of every piece; the contacts that matter, in a sequence
Kept(c, q0, q1, L, w) ==
   LET n == Pieces(c, q0, q1)
       Of(i) == SelectSeq([x \in DOMAIN w[i + 1] |-> Whole(c, n, i, L, w[i + 1][x])], LAMBDA k : Relevant(c, k))
       RECURSIVE All(_)
       All(i) == IF i \notin Steps(c, n) THEN <<>> ELSE Of(i) \o All(i + 1)
   IN All(0)
\* ---------------------------------------------------------------- groups: sets of positions in K
Key(k) == <<k.a, k.b, k.sh>>
Groups(K) == {{x \in DOMAIN K : Key(K[x]) = g} : g \in {Key(K[x]) : x \in DOMAIN K}}
First(G) == Min(G)
Err(c, k) == Margin(c, k.a, k.b) - k.d
Touch0(k) == \E j \in Movers(k) : k.ty[j] # 2   \* moves with the start
Touch1(k) == \E j \in Movers(k) : k.ty[j] # 1   \* moves with the end
MaxErr(c, K, S) == IF S = {} THEN None ELSE Max({Err(c, K[x]) : x \in S})
Err0(c, K, G) == MaxErr(c, K, {x \in G : Touch0(K[x])})
Err1(c, K, G) == MaxErr(c, K, {x \in G : Touch1(K[x])})
\* contacts that count for the ends that may move
Counts(c, k) == IF c.ev = 1 THEN TRUE ELSE IF c.f0 THEN Touch1(k) ELSE IF c.f1 THEN Touch0(k) ELSE TRUE
FreeErr(c, K, G) == MaxErr(c, K, {x \in G : Counts(c, K[x])})
\* ---------------------------------------------------------------- gradients
Turns(k, q) == (k + SumF(DOMAIN q, LAMBDA i : q[i] \div 4)) % 4
Turned(n, p) == CASE n = 0 -> p [] n = 1 -> <<-p[2], p[1], p[3]>> [] n = 2 -> <<-p[1], -p[2], p[3]>> [] OTHER -> <<p[2], -p[1], p[3]>>
Jac(k, q, r, x) == ((k * 7 + r * 3 + x * 5) % 5) - 2 + ((q[x] \div 4) % 3)
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
\* the speed of the touching point along the normal, per joint x; the point is taken in the pose at the piece's start (end 0) or end (1)
Grad(c, q0, q1, k, j, end, x) ==
   LET lk == Link(k, j)
       qt == At(q0, q1, k.t[j])
       p == Turned(Turns(lk, At(q0, q1, IF end = 0 THEN k.s ELSE k.e)), k.p[j])
       rot == Cross(<<Jac(lk, qt, 4, x), Jac(lk, qt, 5, x), Jac(lk, qt, 6, x)>>, p)
       sgn == IF j = 1 THEN -1 ELSE 1
   IN sgn * ((Jac(lk, qt, 1, x) + rot[1]) * k.n[1] + (Jac(lk, qt, 2, x) + rot[2]) * k.n[2] + (Jac(lk, qt, 3, x) + rot[3]) * k.n[3])
\* how much of the motion of one end arrives at the contact, in 48ths
Share(c, k, j, end) == IF c.ev = 1 THEN 48 ELSE IF end = 0 THEN 48 - k.t[j] ELSE k.t[j]
Weight(c, k) == Err(c, k) + c.buf
TouchEnd(k, j, end) == Mine(Link(k, j)) /\ k.ty[j] # (IF end = 0 THEN 2 ELSE 1)
GP(K, G, end) == {y \in G \X (1..2) : TouchEnd(K[y[1]], y[2], end)}
WSum(c, K, G, end) == SumF(GP(K, G, end), LAMBDA y : Weight(c, K[y[1]]))
WGrad(c, q0, q1, K, G, end, x) ==
   SumF(GP(K, G, end), LAMBDA y : Weight(c, K[y[1]]) * Share(c, K[y[1]], y[2], end) * Grad(c, q0, q1, K[y[1]], y[2], end, x))
\* v (in thousandths) is -N / (48 W)
Ratio(v, N, W) == Abs(v) < 100000 /\ Abs(v * 48 * W + 1000 * N) <= 48 * W
Fixed(c, end) == c.ev # 1 /\ (IF end = 0 THEN c.f0 ELSE c.f1)
AvgOK(c, q0, q1, K, G, end, v) ==
   IF Fixed(c, end) \/ GP(K, G, end) = {} THEN \A x \in 1..c.dof : v[x] = 0
   ELSE LET W == WSum(c, K, G, end) IN \A x \in 1..c.dof : Ratio(v[x], WGrad(c, q0, q1, K, G, end, x), W)
SumOK(c, q0, q1, k, end, v) ==
   IF Fixed(c, end) THEN \A x \in 1..c.dof : v[x] = 0
   ELSE \A x \in 1..c.dof : Ratio(v[x], SumF(Movers(k), LAMBDA j : Share(c, k, j, end) * Grad(c, q0, q1, k, j, end, x)), 1)
\* finite differences: the steepest of the contacts that are worst now
Slope(k, end, x) == IF end = 0 THEN k.s0[x] * (48 - k.s) + k.s1[x] * (48 - k.e) ELSE k.s0[x] * k.s + k.s1[x] * k.e
DiffOK(c, K, G, end, v) ==
   LET Worst == {y \in G : Counts(c, K[y]) /\ Err(c, K[y]) = FreeErr(c, K, G)}
       D(x) == Max({-(IF c.ev = 1 THEN 48 * K[y].s0[x] ELSE Slope(K[y], end, x)) : y \in Worst})
   IN \/ \A x \in 1..c.dof : Abs(v[x]) < 100000 /\ Abs(v[x] * 48 - 1000 * D(x)) <= 144
      \/ Fixed(c, end) /\ \A x \in 1..c.dof : v[x] = 0
\* ---------------------------------------------------------------- what a constraint may say
Block(c, e, r, end) == [x \in 1..c.dof |-> e.jac[r][c.cols[end + 1] + x]]
Ends(c) == IF c.ev = 1 THEN {0} ELSE {0, 1}
InBlock(c, col) == \E end \in Ends(c) : col > c.cols[end + 1] /\ col <= c.cols[end + 1] + c.dof
Outside(c, e, r) == \A col \in DOMAIN e.jac[r] : InBlock(c, col) \/ e.jac[r][col] = 0
ShapeOK(c, e, rows) == /\ e.rows = rows /\ e.rows2 = rows /\ e.nb = rows /\ e.neg /\ Len(e.val) = rows /\ Len(e.coef) = rows /\ e.jr = rows /\ e.jc = c.nv
                       /\ \A r \in 1..rows : Outside(c, e, r)
\* pat: the structure seen first, None before any
StructureOK(c, pat, e) == (c.sp /\ c.kind \in {"C", "CN"} /\ pat # None) => e.pat = pat
RowOK(c, e, K, G, r) ==
   /\ e.val[r] = FreeErr(c, K, G) /\ e.coef[r] = Coef(c, K[First(G)].a, K[First(G)].b)
   /\ \A end \in Ends(c) : IF c.kind = "CN" THEN DiffOK(c, K, G, end, Block(c, e, r, end)) ELSE AvgOK(c, e.q0, e.q1, K, G, end, Block(c, e, r, end))
UnusedOK(c, e, r) == e.val[r] = -c.buf /\ \A col \in DOMAIN e.jac[r] : e.jac[r][col] = 0
\* the rows show different groups, and no group left out is worse than one shown
RowsOK(c, e, K) ==
   LET Gs == Groups(K)
       k == Min2(Cardinality(Gs), c.maxc)
       M == [r \in 1..k |-> {G \in Gs : RowOK(c, e, K, G, r)}]
       RECURSIVE Fit(_, _)
       Fit(r, used) == IF r > k THEN \A G \in Gs \ used : \A H \in used : FreeErr(c, K, G) <= FreeErr(c, K, H)
                       ELSE \E G \in M[r] \ used : Fit(r + 1, used \union {G})
   IN Fit(1, {}) /\ \A r \in (k + 1)..c.maxc : UnusedOK(c, e, r)
\* one row for every contact
EachOK(c, e, K) ==
   LET Is(r, k) == /\ e.val[r] = Err(c, k) /\ e.coef[r] = Coef(c, k.a, k.b)
                   /\ \A end \in Ends(c) : SumOK(c, e.q0, e.q1, k, end, Block(c, e, r, end))
       M == [r \in DOMAIN e.val |-> {x \in DOMAIN K : Is(r, K[x])}]
   IN \A x \in DOMAIN K : LET R == {r \in DOMAIN e.val : x \in M[r]} IN
        \E r \in R : Cardinality({q \in DOMAIN e.val : M[q] = M[r]}) = Cardinality(M[r])
\* ---------------------------------------------------------------- what an evaluator may answer
Bag(s) == [v \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = v})]
Seen(k) == [a |-> k.a, b |-> k.b, d |-> k.d, sh |-> k.sh, t |-> k.t, ty |-> k.ty]
Plus(x, b) == IF x = None THEN None ELSE x + b
SetOf(c, K, G) ==
   LET e0 == Err0(c, K, G)  e1 == Err1(c, K, G)  m == Max2(e0, e1)
       Lm(j) == MaxErr(c, K, {x \in G : Mine(Link(K[x], j))})
   IN
   [a |-> K[First(G)].a, b |-> K[First(G)].b, c |-> Coef(c, K[First(G)].a, K[First(G)].b), cc |-> c.ev # 1,
    er |-> SortSeq([i \in 1..Cardinality(G) |-> Err(c, K[SetToSeq(G)[i]])], LAMBDA x, y : x < y),
    m |-> <<m, e0, e1, Plus(m, c.buf), Plus(e0, c.buf), Plus(e1, c.buf)>>,
    lm |-> <<Lm(1), Plus(Lm(1), c.buf), Lm(2), Plus(Lm(2), c.buf)>>]
FreeOf(c, s) == IF c.ev = 1 THEN s.m[1] ELSE IF c.f0 THEN s.m[3] ELSE IF c.f1 THEN s.m[2] ELSE s.m[1]
KeptOK(K, e) == Bag([x \in DOMAIN K |-> Seen(K[x])]) = Bag(e.kept)
SetsOK(c, K, e) == IF e.want = 0 THEN e.sets = <<>>
   ELSE Bag([i \in DOMAIN SetToSeq(Groups(K)) |-> SetOf(c, K, SetToSeq(Groups(K))[i])]) = Bag(e.sets)
WorstFirst(c, e) == (e.want > 0 /\ Len(e.sets) > e.want) =>
   \A i \in 1..e.want : \A j \in (i + 1)..Len(e.sets) : FreeOf(c, e.sets[i]) >= FreeOf(c, e.sets[j])
AskedOK(c, e) == /\ {<<e.tests[i].p[1].q0, e.tests[i].p[1].q1>> : i \in DOMAIN e.tests} = Asked(c, e.q0, e.q1)
                 /\ \A i \in DOMAIN e.tests : e.tests[i].p[1] = e.tests[i].p[2] /\ e.tests[i].v = e.v /\ e.tests[i].r = c.req
=============================================================================
