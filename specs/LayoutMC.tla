----------------------------- MODULE LayoutMC -----------------------------
\* All small layouts, writes through the vector, and stacks of small components.
EXTENDS Layout, TLC, Json
CONSTANTS Depth
VARIABLES s, last, hist
vars == <<s, last, hist>>
V(k) == [k |-> k, id |-> k, names |-> <<>>]
NodeKinds == {<<>>, <<1>>, <<2>>, <<1, 1>>, <<2, 1>>, <<1, 3>>, <<1, 2, 1>>}
Layouts == UNION {[1..n -> NodeKinds] : n \in 1..3}
Mk(lay) == [i \in DOMAIN lay |-> [name |-> i, vs |-> [j \in DOMAIN lay[i] |-> V(lay[i][j])]]]
Base(lay) == LET ns == Mk(lay) n == Dim(ns) IN New(ns, [i \in 1..n |-> 3 * i], [i \in 1..n |-> 4], [i \in 1..n |-> 10 + i])
Comps == {[dyn |-> FALSE, k |-> 1], [dyn |-> FALSE, k |-> 2], [dyn |-> FALSE, k |-> 0], [dyn |-> TRUE, k |-> 2]}
MkComp(c, n) == [dyn |-> c.dyn, rows |-> [i \in 1..c.k |-> [c |-> i, a |-> [j \in 1..n |-> i + j], lo |-> 0, hi |-> i, w |-> 1, t |-> 2 * i]]]
Init == s = New(<<>>, <<>>, <<>>, <<>>) /\ last = "none" /\ hist = <<>>
Choose == last = "none" /\ \E lay \in Layouts : Dim(Mk(lay)) > 0 /\ s' = Base(lay) /\ hist' = <<[op |-> "new", lay |-> lay]>> /\ last' = "new"
Set == \E d \in {-1, 5} : /\ s' = SetX(s, [i \in DOMAIN s.x |-> d * i]) /\ hist' = Append(hist, [op |-> "set", d |-> d]) /\ last' = "set"
Add == \E c \in Comps : /\ s' = [s EXCEPT !.col = Append(@, MkComp(c, Len(s.x)))] /\ hist' = Append(hist, [op |-> "add", k |-> c.k, dyn |-> c.dyn]) /\ last' = "add"
Clr == Len(s.col) > 0 /\ s' = [s EXCEPT !.col = <<>>] /\ hist' = Append(hist, [op |-> "clear"]) /\ last' = "clear"
Next == Choose \/ (last # "none" /\ Len(hist) <= Depth /\ (Set \/ Add \/ Clr))
Spec == Init /\ [][Next]_vars
\* every entry belongs to exactly one variable; variables are contiguous and in order
Owners(e) == {<<i, v>> \in UNION {{<<i, v>> : v \in DOMAIN s.ns[i].vs} : i \in DOMAIN s.ns} :
              VarAt(s.ns, i, v) <= e /\ e < VarAt(s.ns, i, v) + s.ns[i].vs[v].k}
Covered == \A e \in 0..(Dim(s.ns) - 1) : Cardinality(Owners(e)) = 1
Sized == Len(s.x) = Dim(s.ns) /\ Cat([i \in DOMAIN s.ns |-> Part(s.x, NodeAt(s.ns, i), NodeSize(s.ns[i]))]) = s.x
          /\ \A i \in DOMAIN s.ns : Cat([v \in DOMAIN s.ns[i].vs |-> Part(s.x, VarAt(s.ns, i, v), s.ns[i].vs[v].k)]) = Part(s.x, NodeAt(s.ns, i), NodeSize(s.ns[i]))
\* initial values lie inside the limits
Clipped == last = "new" => \A i \in DOMAIN s.x : s.lo[i] <= s.x[i] /\ s.x[i] <= s.hi[i]
\* stacking loses nothing: rows of the stack are the rows of the components
Stacked == Len(Rows(s.col, s.x)) = Sum([i \in DOMAIN s.col |-> Len(Shown(s.col[i], s.x))])
PrintScn == (Len(hist') = Depth + 1) => PrintT(<<"SCN", ToJson(hist')>>)
=============================================================================
