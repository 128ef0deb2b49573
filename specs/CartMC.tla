------------------------------- MODULE CartMC -------------------------------
(* Every small Cartesian term at every small joint position: slopes against exact differences (a shift of one, a quarter *)
(* turn each way), what errors are indifferent to, the nearest point of a line.                                         *)
EXTENDS Cart, Json
CONSTANTS MaxN, MaxQ, Rich
VARIABLES t, q
vars == <<t, q>>
None == [k |-> "none"]
Pose(R, p) == [R |-> R, p |-> p]
A == Pose(Quarter(3), <<1, 0, 2>>)
B == Pose(Mul(Quarter(1), Quarter(2)), <<0, -1, 1>>)
C == Pose(Id, <<2, 1, 0>>)
Frames == IF Rich THEN {Here, A, B, C} ELSE {Here, A, B}
JointSet(par) == {[par |-> p, rev |-> r, ax |-> a, R |-> f.R, p |-> f.p] : p \in par, r \in BOOLEAN, a \in {1, 3}, f \in {Here, A}}
Worlds == {[j |-> <<a>>, fix |-> B] : a \in JointSet({0})}
          \cup (IF MaxN < 2 THEN {} ELSE {[j |-> <<a, b>>, fix |-> B] : a \in JointSet({0}), b \in JointSet({0, 1})})
Full == <<0, 1, 2, 3, 4, 5>>
Idx == {Full, <<2, 4>>}
One(i) == [x \in DOMAIN i |-> x]
Zero6 == <<0, 0, 0, 0, 0, 0>>
Blank(w, k) == [w |-> w, k |-> k, src |-> Joints(w), tgt |-> 0, so |-> Here, to |-> Here, to2 |-> C, frame |-> "base", num |-> FALSE, split |-> FALSE,
                lim |-> 1, idx |-> <<>>, co |-> <<>>, bnd |-> <<>>, lo |-> <<>>, up |-> <<>>, looks |-> 2]
Coefs == {<<1, 1, 1, 1, 1, 1>>, <<2, 0, 1, 0, 3, 1>>}
Bnds == {<< <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>> >>, << <<-1, 1>>, <<0, 2>>, <<-Inf, 1>>, <<0, Inf>>, <<-2, 0>>, <<0, 0>> >>}
Terms(w) ==
  LET n == Joints(w) IN
  {[Blank(w, "pos") EXCEPT !.src = st[1], !.tgt = st[2], !.so = f[1], !.to = f[2], !.num = nb, !.split = nb, !.co = c, !.bnd = b]
       : st \in {<<n, 0>>, <<0, n>>, <<n, n + 1>>, <<1, n>>}, f \in {<<Here, A>>, <<A, B>>, <<B, Here>>}, nb \in BOOLEAN, c \in Coefs, b \in Bnds}
  \cup {[Blank(w, "line") EXCEPT !.tgt = g, !.so = f, !.to = e[1], !.to2 = e[2], !.num = nb, !.idx = i, !.co = One(i)]
       : g \in {0, 1, n + 1}, f \in Frames, e \in {<<Here, C>>, <<A, Pose(A.R, <<1, 0, -2>>)>>, <<Here, Pose(Quarter(3), <<0, 0, 3>>)>>}, nb \in BOOLEAN, i \in Idx}
  \cup {[Blank(w, k) EXCEPT !.src = st[1], !.tgt = st[2], !.so = f[1], !.to = f[2], !.idx = i, !.lo = b[1], !.up = b[2]]
       : st \in {<<n, n + 1>>, <<0, n>>}, k \in {"cart", "dyn"}, f \in {<<Here, A>>, <<A, B>>}, i \in Idx, b \in {<< <<>>, <<>> >>, <<Zero6, Zero6>>, << <<-1, -1, 0, -1, 0, 0>>, <<1, 0, 2, 0, 0, 1>> >>}}
  \cup {[Blank(w, "dyn") EXCEPT !.tgt = 1, !.so = A, !.to = f, !.idx = Full] : f \in Frames}
  \cup {[Blank(w, "vel") EXCEPT !.so = f] : f \in Frames}
  \cup {[Blank(w, "ik") EXCEPT !.to = f] : f \in Frames}
Init == t = None /\ q = <<>>
World == t.k = "none" /\ \E w \in Worlds : t' = [k |-> "world", w |-> w] /\ q' = <<>>
Term == t.k = "world" /\ \E u \in Terms(t.w) : t' = u /\ q' = <<>>
Turned == t.k \notin {"none", "world"} /\ q = <<>> /\ \E x \in [1..Joints(t.w) -> 0..MaxQ] : q' = [i \in 1..Joints(t.w) |-> x[i]] /\ t' = t
Spec == Init /\ [][World \/ Term \/ Turned]_vars
Ready == q # <<>>
Posed == Ready /\ t.k \in {"pos", "cart", "dyn", "line"}
W == t.w
N == 1..Joints(W)
P(x) == TLCEval(All(W, x))
Err(x) == LET X == P(x) IN Seen(Base(t, X), Mov(t, X))
Dir(i) == LET X == P(q) IN Slope6(W, X, BLink(t), Base(t, X), MLink(t), Mov(t, X), i)
Less(x, i, d) == [x EXCEPT ![i] = @ + d]
Head3(s) == <<s[1], s[2], s[3]>>
\* four quarter turns are none
RoundOK == Posed => \A i \in N : W.j[i].rev => P(Less(q, i, 4)) = P(q)
\* a shift of one is the slope; a quarter turn each way is twice the slope
DiffOK == Posed => \A i \in N :
  IF W.j[i].rev THEN Times(Mega, Sub(Err(Less(q, i, 1)).p, Err(Less(q, i, -1)).p)) = Times(2, Head3(Dir(i)))
  ELSE Times(Mega, Sub(Err(Less(q, i, 1)).p, Err(q).p)) = Head3(Dir(i)) /\ \A r \in 4..6 : Dir(i)[r] = 0
\* frames on one link, joints above both, joints above neither: nothing moves
RestOK == Posed => \A i \in N : ((i \in Above(W, BLink(t))) <=> (i \in Above(W, MLink(t)))) => Dir(i) = <<0, 0, 0, 0, 0, 0>>
\* turning about its own axis changes an angle as fast as it is turned; the slope of the inverse is the inverse's
Close(u, v) == \A c \in 1..3 : Abs(u[c] - v[c]) <= 8
TurnOK == Posed => LET M == Err(q).R IN
  Judged(M) => /\ Close(RotSlope(M, Vee(M)), Times(Mega, Vee(M)))
               /\ \A v \in {<<1, 0, 0>>, <<0, 1, 0>>, <<1, 2, -1>>} : Close(RotSlope(T(M), On(T(M), v)), RotSlope(M, v))
               /\ RotOf(T(M)) = Times(-1, RotOf(M))
\* a rigid motion of the world changes nothing: the first joints' frames and the fixed link moved together
Moving(F) == [W EXCEPT !.j = [i \in N |-> IF W.j[i].par # 0 THEN W.j[i] ELSE LET z == Then(F, W.j[i]) IN [W.j[i] EXCEPT !.R = z.R, !.p = z.p]], !.fix = Then(F, @)]
RigidOK == (Posed /\ BLink(t) # 0 /\ MLink(t) # 0) => LET X == TLCEval(All(Moving(B), q)) IN Seen(Base(t, X), Mov(t, X)) = Err(q)
\* the nearest point of the segment, whoever looks for it by trying; sliding along the line changes nothing
NearOK == (Ready /\ t.k = "line") =>
  LET X == P(q)  a == LineA(t, X).p  b == LineB(t, X).p  m == Mov([t EXCEPT !.k = "dyn"], X).p  d == Den(a, b)
      w == Away(a, b, m) IN
  /\ \A x \in 0..d : LET o == Sub(Times(d, Sub(m, a)), Times(x, Sub(b, a))) IN Dot(o, o) >= Dot(w, w)
  /\ \A i \in N : Dot(On(LineA(t, X).R, <<LineSlope(t, X, i, 1), LineSlope(t, X, i, 2), LineSlope(t, X, i, 3)>>), Sub(b, a)) = 0
\* rows of a pose constraint: each component asked for, once or as two halves of its range, in order
RowsOK == (Ready /\ t.k = "pos") => LET R == RowsFrom(t, 1) IN
  /\ \A r \in 1..(Len(R) - 1) : R[r].c <= R[r + 1].c
  /\ \A c \in 1..6 : LET S == {r \in DOMAIN R : R[r].c = c} IN
       /\ (S # {}) <=> (t.co[c] # 0)
       /\ \A v \in -3..3 : (S # {}) => ((\A r \in S : R[r].b[1] <= v /\ v <= R[r].b[2]) <=> (t.bnd[c][1] <= v /\ v <= t.bnd[c][2]))
\* how far out of a band: nothing inside, and outside as steep as the error
BandOK == (Posed /\ Wide(t, 1)) => \A c \in 1..6 : \A v \in -3..3 :
  LET o == Out(t, c, v * Mega)  s == Out(t, c, (v + 1) * Mega) - o IN
  ((o = 0) <=> (t.lo[c] <= v /\ v <= t.up[c])) /\ s \in {0, Mega} /\ ((s = 0) => (o = 0))
\* a displacement and its opposite
VelOK == (Ready /\ t.k = "vel") => LET X == P(q)  Y == P(Less(q, 1, 1)) IN \A c \in 1..3 : CartVel(t, X, Y)[c] + CartVel(t, X, Y)[c + 3] = -2 * Mega * t.lim
PrintScn == (t'.k \in {"none", "world"} \/ q' # <<>>) \/ PrintT(<<"SCN", ToJson(t')>>)
=============================================================================
