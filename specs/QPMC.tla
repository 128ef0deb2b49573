------------------------------- MODULE QPMC -------------------------------
\* Histories of calls on one small problem: every sequence up to Depth calls; one scenario per maximal history.
EXTENDS QP, Json
CONSTANTS Depth
VARIABLES s, hist
mvars == <<s, hist>>
R(a, b, t, w) == [c |-> 1, a |-> a, q |-> <<<<1, 2, 1>>>>, b |-> b, t |-> t, w |-> w]
T1 == [name |-> "d", kind |-> "cnt", dyn |-> 2, rows |-> <<R(<<1, 0>>, "lo", 2, 1)>>]
T2 == [name |-> "s", kind |-> "sq", dyn |-> 0, rows |-> <<R(<<1, 1>>, "eq", 1, 2)>>]
T3 == [name |-> "h", kind |-> "hinge", dyn |-> 3, rows |-> <<R(<<1, 1>>, "up", 0, 3), R(<<0, -1>>, "lo", 1, 1)>>]
T4 == [name |-> "c", kind |-> "cnt", dyn |-> 0, rows |-> <<R(<<2, -1>>, "eq", 0, 2)>>]
Xs == <<<<0, 0>>, <<1, 0>>, <<2, -3>>>>
MCInit == s = AddT(AddT(AddT(New(2, <<-320, -INF>>, <<480, 640>>, <<0, 0>>), T1), T2), T3) /\ hist = <<>>
H(op, k) == hist' = Append(hist, [op |-> op, k |-> k])
Usable == s.ready
MCNext ==
  /\ Len(hist) < Depth
  /\ \/ s' = SetupT(s) /\ H("setup", 0)
     \/ Usable /\ \E k \in DOMAIN Xs : s' = SetX(s, Xs[k]) /\ H("set", k - 1)
     \/ Usable /\ s' = Conv(s) /\ H("conv", 0)
     \/ Usable /\ \E k \in 1..2 : s' = SetBox(s, IF k = 1 THEN <<640, 320>> ELSE <<32, 3200>>) /\ H("box", k - 1)
     \/ Usable /\ s' = Scale(s, 1, 2) /\ H("scale", 0)
     \/ Usable /\ s' = SetMu(s, [nm \in Cnts(s) |-> IF nm = "c" THEN 7 ELSE 3]) /\ H("coef", 0)
     \/ Len(s.ts) < 4 /\ Len(hist) > 0 /\ hist[Len(hist)].op # "add" /\ s' = AddT(s, T4) /\ H("add", 0)
MCSpec == MCInit /\ [][MCNext]_mvars
\* the QP the user sees: built at lin with muq
Qp == Build(s.ts, s.muq, s.lin, s.n)
Y == {<<a, b>> : a \in {-1, 0, 2}, b \in {-2, 0, 1}}
Inv == s.conv => /\ \A i \in 1..s.n : s.bl[i] <= s.bu[i] /\ s.bl[i] >= s.lo[i] /\ s.bu[i] <= s.hi[i]
                 /\ Means(Qp, s.ts, s.muq, s.lin, Y)
\* calls other than convexify, box and setup leave the QP as it is
Stable == [][(s.conv /\ s'.conv /\ hist'[Len(hist')].op \in {"set", "coef"}) => (s'.lin = s.lin /\ s'.muq = s.muq /\ s'.bl = s.bl /\ s'.bu = s.bu)]_mvars
BoxOnlyLimits == [][(s.conv /\ s'.conv /\ hist'[Len(hist')].op \in {"box", "scale"}) => (s'.lin = s.lin /\ s'.muq = s.muq)]_mvars
PrintScn == (Len(hist') = Depth \/ hist'[Len(hist')].op = "add") => PrintT(<<"SCN", ToJson(hist')>>)
=============================================================================
