---------------------------- MODULE LegacyJointMC ----------------------------
(* Every small term: what it must be indifferent to, and how its forms agree with each other. Each choice is a scenario. *)
EXTENDS LegacyJoint, TLC, Json
CONSTANT MaxR
VARIABLES t, x
vars == <<t, x>>
None == [o |-> 9]
Layouts == {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
Term(o, eq, cost, n0, r, cs, k, f, l, b) ==
  [o |-> o, eq |-> eq, cost |-> cost, n0 |-> n0, r |-> r, cols |-> cs, k |-> k, f |-> f, l |-> l,
   co |-> [j \in 1..cs[k] |-> IF b = 0 THEN 1 ELSE j * b - 1], ta |-> [j \in 1..cs[k] |-> b * j - 1],
   up |-> [j \in 1..cs[k] |-> IF eq THEN 0 ELSE b], lo |-> [j \in 1..cs[k] |-> IF eq THEN 0 ELSE -j * b], looks |-> 2]
Motion(u, e) == [v \in 1..NVars(u) |-> IF e = 0 THEN 3 ELSE IF e = 1 THEN ((v * 5) % 7) - 3 ELSE ((v * v * 3) % 11) - 5]
Init == t = None /\ x = <<>>
Choose == /\ t.o = 9
          /\ \E o \in 0..3, eq, cost \in BOOLEAN, n0 \in 0..1, r \in 1..MaxR, cs \in Layouts, b \in 0..2 : \E k \in DOMAIN cs : \E f \in 0..(r - 1) : \E l \in f..(r - 1) :
               LET u == Term(o, eq, cost, n0, r, cs, k, f, l, b) IN t' = u /\ \E e \in 0..2 : x' = Motion(u, e)
Spec == Init /\ [][Choose]_vars
Ready == t.o # 9 /\ ~Short(t)
\* the layout gives every variable to one place
Covers == Ready => {VarAt(t, k, i, j) : k \in DOMAIN t.cols, i \in 1..t.r, j \in 1..1} \subseteq 1..NVars(t)
OneOwner == Ready => LET P == UNION {{<<k, i, j>> : i \in 1..t.r, j \in 1..t.cols[k]} : k \in DOMAIN t.cols} IN
                     /\ {VarAt(t, p[1], p[2], p[3]) : p \in P} = (t.n0 + 1)..NVars(t)
                     /\ Cardinality(P) = NVars(t) - t.n0
\* variables outside the term's joints and steps do not matter
Mine == {VarAt(t, t.k, i + 1, j) : i \in t.f..t.l, j \in 1..Dof(t)}
Local == Ready => \A v \in (1..NVars(t)) \ Mine : LET y == [x EXCEPT ![v] = @ + 4] IN
                  CostOf(t, y) = CostOf(t, x) /\ LinearViol(t, y) = LinearViol(t, x) /\ ExcessAll(t, y) = ExcessAll(t, x)
\* moving a joint as a whole does not change its derivatives
Shifted(j) == [v \in DOMAIN x |-> IF \E i \in 1..t.r : v = VarAt(t, t.k, i, j) THEN x[v] + 6 ELSE x[v]]
ShiftOK == (Ready /\ t.o > 0) => \A j \in 1..Dof(t) : CostOf(t, Shifted(j)) = CostOf(t, x)
\* the forms agree: nothing to pay, nothing violated; no tolerance means the weighted distance
Agree == Ready => /\ CostOf(t, x) >= 0
                  /\ (SquaredCost(t, x) = 0) <=> (LinearViol(t, x) = 0)
                  /\ LinearViol(t, x) >= ExcessAll(t, x)
                  /\ t.eq => ExcessAll(t, x) = LinearViol(t, x)
\* convexity along a line of integer points
Mid(y) == \A v \in DOMAIN x : (x[v] + y[v]) % 2 = 0
ConvexOK == Ready => \A e \in 0..2 : LET y == Motion(t, e) IN Mid(y) => LET m == [v \in DOMAIN x |-> (x[v] + y[v]) \div 2] IN
                     2 * CostOf(t, m) <= CostOf(t, x) + CostOf(t, y)
PrintScn == t'.o = 9 \/ x' # Motion(t', 0) \/ PrintT(<<"SCN", ToJson(t')>>)
=============================================================================
