----------------------------- MODULE SimpleQPMC -----------------------------
\* Histories of calls on one small problem of squared costs and fixed constraints; one scenario per maximal history.
EXTENDS SimpleQP, Json
CONSTANTS Depth
VARIABLES s, hist
mvars == <<s, hist>>
R(c, a, q, b, t, w) == [c |-> c, a |-> a, q |-> q, b |-> b, t |-> t, w |-> w]
Q == <<<<1, 2, 1>>>>
T1 == [name |-> "d", kind |-> "cnt", dyn |-> 0, rows |-> <<R(1, <<1, 0>>, Q, "lo", 2, 1), R(0, <<1, 2>>, <<>>, "eq", 1, 3)>>]
T2 == [name |-> "s", kind |-> "sq", dyn |-> 0, rows |-> <<R(1, <<1, 1>>, Q, "eq", 1, 2)>>]
T3 == [name |-> "h", kind |-> "sq", dyn |-> 0, rows |-> <<R(1, <<1, 1>>, Q, "eq", 0, 3), R(1, <<0, -1>>, Q, "eq", 1, 1)>>]
T4 == [name |-> "c", kind |-> "cnt", dyn |-> 0, rows |-> <<R(1, <<2, -1>>, Q, "up", 0, 2)>>]
Xs == <<<<0, 0>>, <<1, 0>>, <<2, -3>>>>
MCInit == s = AddS(AddS(AddS(New(2, <<-320, -INF>>, <<480, 640>>, <<0, 0>>), T1), T2), T3) /\ hist = <<>>
H(op, k) == hist' = Append(hist, [op |-> op, k |-> k])
MCNext ==
  /\ Len(hist) < Depth
  /\ \/ s' = SetupT(s) /\ H("setup", 0)
     \/ s.ready /\ \E k \in DOMAIN Xs : s' = SetX(s, Xs[k]) /\ H("set", k - 1)
     \/ s.ready /\ s' = Conv(s) /\ H("conv", 0)
     \/ s.ready /\ \E k \in 1..2 : s' = SetBox(s, IF k = 1 THEN <<640, 320>> ELSE <<32, 3200>>) /\ H("box", k - 1)
     \/ s.ready /\ s' = Scale(s, 1, 2) /\ H("scale", 0)
     \/ s.ready /\ s' = SetMu(s, [nm \in Cnts(s) |-> IF nm = "c_0" THEN 7 ELSE 3]) /\ H("coef", 0)
     \/ Len(s.ts) < 5 /\ Len(hist) > 0 /\ hist[Len(hist)].op # "add" /\ s' = AddS(s, T4) /\ H("add", 0)
MCSpec == MCInit /\ [][MCNext]_mvars
Qp == Build(s.ts, s.muq, s.lin, s.n)
Y == {<<a, b>> : a \in {-1, 0, 2}, b \in {-2, 0, 1}}
Inv == s.conv => /\ \A i \in 1..s.n : s.bl[i] <= s.bu[i] /\ s.bl[i] >= s.lo[i] /\ s.bu[i] <= s.hi[i]
                 /\ Means(Qp, s.ts, s.muq, s.lin, Y)
                 /\ \A j \in DOMAIN s.ts : ConvexTerm(s.ts[j], s.lin, s.lin) = ExactTerm(s.ts[j], s.lin)
Stable == [][(s.conv /\ s'.conv /\ hist'[Len(hist')].op \in {"set", "coef"}) => (s'.lin = s.lin /\ s'.muq = s.muq /\ s'.bl = s.bl /\ s'.bu = s.bu)]_mvars
BoxOnlyLimits == [][(s.conv /\ s'.conv /\ hist'[Len(hist')].op \in {"box", "scale"}) => (s'.lin = s.lin /\ s'.muq = s.muq)]_mvars
PrintScn == (Len(hist') = Depth \/ hist'[Len(hist')].op = "add") => PrintT(<<"SCN", ToJson(hist')>>)
=============================================================================
