------------------------------ MODULE MatForm ------------------------------
\* Matrix forms of expressions (C15). Matrices are sequences of rows, variables and indices 0-based.
EXTENDS Expr
Vars(e) == {e.a[t][2] : t \in DOMAIN e.a} \cup {e.q[t][2] : t \in DOMAIN e.q} \cup {e.q[t][3] : t \in DOMAIN e.q}
Beyond(S, nv) == \E i \in S : i >= nv
Shape(M, r, c) == Len(M) = r /\ \A i \in 1..r : Len(M[i]) = c
\* affine part as a vector: its coefficients, repeated variables summed; the constant is not part of it
VecOK(e, nv, v) == Len(v) = nv /\ \A i \in 1..nv : v[i] = AffCoef(e, i - 1)
\* the quadratic part as a symmetric matrix M with x' M x = f * (quadratic part), f = 1, or 2 when halved is asked for (given twice M)
SymOK(e, nv, halved, M2) == Shape(M2, nv, nv) /\ \A i, j \in 1..nv :
   M2[i][j] = (IF halved THEN 2 ELSE 1) * (IF i = j THEN 2 ELSE 1) * QuadCoef(e, i - 1, j - 1)
\* rows A x <= -b
RowsOK(es, nv, M, v) ==
   /\ Len(v) = Len(es) /\ Shape(M, Len(es), nv)
   /\ \A r \in DOMAIN es : v[r] = -es[r].c /\ \A i \in 1..nv : M[r][i] = AffCoef(es[r], i - 1)
\* triplets <<row, column, value>> stand for their sum
AtT(t, i, j) == Sum([k \in DOMAIN t |-> IF t[k][1] = i /\ t[k][2] = j THEN t[k][3] ELSE 0])
InRange(t, nr, nc) == \A k \in DOMAIN t : t[k][1] \in 0..(nr - 1) /\ t[k][2] \in 0..(nc - 1)
TripOK(t, nr, nc, M) == Shape(M, nr, nc) /\ InRange(t, nr, nc) /\ \A i \in 1..nr, j \in 1..nc : M[i][j] = AtT(t, i - 1, j - 1)
Distinct(t) == \A k, m \in DOMAIN t : k # m => <<t[k][1], t[k][2]>> # <<t[m][1], t[m][2]>>
\* compressed columns: column pointers of length nc + 1 starting at 0, not falling, ending with the number of entries; rows rise inside a column
Keep(up, i, j) == up = 0 \/ (up = 2 /\ i <= j) \/ (up = 1 /\ i >= j)
CscShape(ri, cp, v, nr, nc) ==
   /\ Len(cp) = nc + 1 /\ cp[1] = 0 /\ cp[nc + 1] = Len(v) /\ Len(ri) = Len(v)
   /\ \A j \in 1..nc : cp[j] <= cp[j + 1]
   /\ \A k \in DOMAIN ri : ri[k] \in 0..(nr - 1)
   /\ \A j \in 1..nc : \A k, m \in (cp[j] + 1)..cp[j + 1] : k < m => ri[k] < ri[m]
CscAt(ri, cp, v, i, j) == Sum([k \in 1..(cp[j + 1] - cp[j]) |-> IF ri[cp[j] + k] = i - 1 THEN v[cp[j] + k] ELSE 0])
CscOK(ri, cp, v, nr, nc, up, M) == CscShape(ri, cp, v, nr, nc) /\ \A i \in 1..nr, j \in 1..nc :
   CscAt(ri, cp, v, i, j) = (IF Keep(up, i, j) THEN M[i][j] ELSE 0)
\* index/value lists made distinct
At1(ix, v, i) == Sum([k \in DOMAIN ix |-> IF ix[k] = i THEN v[k] ELSE 0])
SimpOK(i0, v0, i1, v1) ==
   /\ Len(i1) = Len(v1) /\ \A k, m \in DOMAIN i1 : k # m => i1[k] # i1[m]
   /\ \A i \in {i0[k] : k \in DOMAIN i0} \cup {i1[k] : k \in DOMAIN i1} : At1(i0, v0, i) = At1(i1, v1, i)
   /\ \A k \in DOMAIN i1 : \E m \in DOMAIN i0 : i0[m] = i1[k] /\ v0[m] # 0
\* ---- how the code builds them: sorted triplets, upper triangle plus its transpose
Upper(e) == [t \in DOMAIN e.q |-> IF e.q[t][2] <= e.q[t][3] THEN <<e.q[t][2], e.q[t][3], e.q[t][1]>> ELSE <<e.q[t][3], e.q[t][2], e.q[t][1]>>]
BuildSym2(e, nv, halved) == [i \in 1..nv |-> [j \in 1..nv |-> (IF halved THEN 2 ELSE 1) * (AtT(Upper(e), i - 1, j - 1) + AtT(Upper(e), j - 1, i - 1))]]
BuildCsc(M, nr, nc, up) ==
  LET K(j) == SelectSeq([i \in 1..nr |-> i], LAMBDA i : Keep(up, i, j) /\ M[i][j] # 0)
      RECURSIVE Cat(_, _)
      Cat(f, j) == IF j = 0 THEN <<>> ELSE Cat(f, j - 1) \o f[j]
      Rows == [j \in 1..nc |-> [k \in DOMAIN K(j) |-> K(j)[k] - 1]]
      Vals == [j \in 1..nc |-> [k \in DOMAIN K(j) |-> M[K(j)[k]][j]]]
  IN [ri |-> Cat(Rows, nc), v |-> Cat(Vals, nc), cp |-> [j \in 1..(nc + 1) |-> Len(Cat(Rows, j - 1))]]
=============================================================================
