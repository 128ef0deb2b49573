----------------------------- MODULE NumDiffMC -----------------------------
\* The definitions are exact where they claim to be, and differentiating leaves a problem's variables alone.
EXTENDS NumDiff, TLC, Json
CONSTANTS Depth
VARIABLES c, a, q, x, vars, hist
Pts == {<<0, 0>>, <<2, -3>>, <<-1, 4>>}
Grid == {<<i, j>> : i \in -12..12, j \in -12..12}
F(p) == <<c + a[1] * p[1] + a[2] * p[2] + q[1] * p[1] * p[1] + q[2] * p[2] * p[2] + q[3] * p[1] * p[2]>>
T == [p \in Second(x) \cup Central(x) |-> F(p)]
Ops == {"pcost", "pgrad", "pcnt", "vcnt", "set"}
Init == c = 0 /\ a = <<0, 0>> /\ q = <<0, 0, 0>> /\ x = <<0, 0>> /\ vars = <<0, 0>> /\ hist = <<>>
Choose == /\ hist = <<>> /\ vars = <<0, 0>> /\ a = <<0, 0>> /\ c = 0
          /\ c' \in {0, 3} /\ a' \in {<<i, j>> : i \in -2..2, j \in {-1, 0, 3}} /\ q' \in {<<i, j, k>> : i \in {0, 1, -2}, j \in {0, 3}, k \in {0, 1, -1}}
          /\ x' \in Pts /\ UNCHANGED <<vars, hist>>
Call == /\ a = <<0, 0>> /\ q = <<0, 0, 0>> /\ c = 0 /\ Len(hist) < Depth
        /\ \E o \in Ops : \E p \in Pts :
             /\ hist' = Append(hist, [op |-> o, p |-> p])
             /\ vars' = IF o = "set" THEN p ELSE vars
        /\ UNCHANGED <<c, a, q, x>>
Next == Choose \/ Call
Spec == Init /\ [][Next]_<<c, a, q, x, vars, hist>>
Affine == q = <<0, 0, 0>>
\* forward differences are exact for affine functions, central ones for quadratics (2 half steps = epsilon = 2)
FwdExact == Affine => \A i \in 1..2 : FwdD(T, x, 1, i) = 2 * a[i]
CenExact == /\ CenD(T, x, 1, 1) = 2 * (a[1] + 2 * q[1] * x[1] + q[3] * x[2])
            /\ CenD(T, x, 1, 2) = 2 * (a[2] + 2 * q[2] * x[2] + q[3] * x[1])
CenHExact == CenH(T, x, 1, 1) = 2 * q[1] /\ CenH(T, x, 1, 2) = 2 * q[2]
\* nested: divided by 2 * epsilon^2 = 8
NestExact == NestH(T, x, 1, 1, 1) = 8 * 2 * q[1] /\ NestH(T, x, 1, 2, 2) = 8 * 2 * q[2] /\ NestH(T, x, 1, 1, 2) = 8 * q[3] /\ NestH(T, x, 1, 2, 1) = 8 * q[3]
OnlySetWrites == [][vars' # vars => (hist' # hist /\ hist'[Len(hist')].op = "set")]_<<vars, hist>>
PrintScn == (Len(hist') = Depth) => PrintT(<<"SCN", ToJson(hist')>>)
=============================================================================
