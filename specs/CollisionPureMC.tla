--------------------------- MODULE CollisionPureMC ---------------------------
\* Small motions with up to two contacts: what the definitions of Collision.tla promise.
EXTENDS Collision, TLC
CONSTANTS Lvs
VARIABLES c, q1, w
q0 == <<0>>
Cfg(ev, f0, f1, pc) == [ev |-> ev, dof |-> 1, maxc |-> 1, lvs |-> Lvs, buf |-> 2, dm |-> 2, dc |-> 1, pm |-> <<>>, pc |-> pc, f0 |-> f0, f1 |-> f1]
Ends2 == {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>}
Con == {[a |-> p[1], b |-> p[2], sh |-> <<s, -1, 0, -1>>, d |-> d, pa |-> <<1, 0, 0>>, pb |-> <<0, 1, 0>>, n |-> <<1, 0, 0>>, t |-> t, s0 |-> <<0>>, s1 |-> <<0>>] :
          p \in {<<1, 2>>, <<2, 4>>}, s \in {0, 1}, d \in {1, 5}, t \in {<<0, 0>>, <<0, 4>>, <<4, 4>>, <<2, 0>>, <<4, 2>>}}
Worlds(n) == {f \in [1..n -> {<<>>} \union {<<k>> : k \in Con}] : Cardinality({i \in 1..n : f[i] # <<>>}) <= 2}
Init == \E ev \in 1..4 : \E f \in Ends2 : \E pc \in {<<>>, <<<<2, 1, 0>>>>} : \E x \in {0, 48, 96} :
          /\ (ev = 1 => f = <<FALSE, FALSE>> /\ x = 0) /\ c = Cfg(ev, f[1], f[2], pc) /\ q1 = <<x>>
          /\ Pieces(c, q0, q1) <= 2 /\ w = <<>>
Next == w = <<>> /\ w' \in Worlds(Cardinality(Steps(c, Pieces(c, q0, q1)))) /\ UNCHANGED <<c, q1>>
Spec == Init /\ [][Next]_<<c, q1, w>>
N == Pieces(c, q0, q1)
Lasts == IF c.ev = 4 THEN {N - 1, N} ELSE {0}
K(L) == IF w = <<>> THEN <<>> ELSE TLCEval(Kept(c, q0, q1, L, w))
All(L) == IF w = <<>> THEN {} ELSE UNION {{Whole(c, N, i, L, w[i + 1][x]) : x \in DOMAIN w[i + 1]} : i \in Steps(c, N)}
\* every group that is kept has an error at an end that may move, and it is the worst of what is kept there
HasError == \A L \in Lasts : LET k == K(L) IN \A G \in Groups(k) : FreeErr(c, k, G) # None /\ \A x \in G : Counts(c, k[x]) => FreeErr(c, k, G) >= Err(c, k[x])
\* what counts at an end that may move is kept if it is near and not muted
NothingLost == \A L \in Lasts : \A k \in All(L) : (Near(c, k) /\ ~Muted(c, k.a, k.b) /\ Counts(c, k)) => k \in {K(L)[x] : x \in DOMAIN K(L)}
Shares == \A L \in Lasts : \A x \in DOMAIN K(L) : \A j \in Movers(K(L)[x]) :
   LET k == K(L)[x] IN (c.ev # 1 => Share(c, k, j, 0) + Share(c, k, j, 1) = 48) /\ (k.ty[j] = 1 => k.t[j] = 0) /\ (k.ty[j] = 2 => k.t[j] = 48)
\* positive weights: the average is one of the group
Positive == \A L \in Lasts : \A x \in DOMAIN K(L) : Weight(c, K(L)[x]) > 0
\* no two neighbouring states asked about are farther apart than lvs, and the ends are asked
Dense == /\ \E p \in Asked(c, q0, q1) : p[1] = q0
         /\ (c.ev # 1 => \E p \in Asked(c, q0, q1) : p[2] = q1)
         /\ \A i \in Steps(c, N) : c.ev \in {2, 4} /\ i < N => 48 * (q1[1] - q0[1]) <= 48 * N * c.lvs
         /\ c.ev = 4 => \A p \in Asked(c, q0, q1) : Dist2(p[1], p[2]) <= c.lvs * c.lvs
Sharp == \A L \in Lasts : Cardinality(UNION Groups(K(L))) = Len(K(L)) /\ \A G, H \in Groups(K(L)) : G = H \/ G \intersect H = {}
=============================================================================
