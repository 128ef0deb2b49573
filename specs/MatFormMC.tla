---------------------------- MODULE MatFormMC ----------------------------
\* Every small expression, size and flag: the construction has the declared form, and the form is the function.
EXTENDS MatForm, TLC, Json
CONSTANT NT
VARIABLES e, nv, fl
vars == <<e, nv, fl>>
N == 3
Co == {-1, 0, 2}
Init == e = Zero /\ nv = 0 /\ fl = 0
AffTerms == {<<>>} \cup {<<<<k, i>>>> : k \in Co, i \in 0..2} \cup {<<<<1, i>>, <<k, j>>>> : i, j \in 0..2, k \in Co}
QTerm == {<<k, i, j>> : k \in Co, i, j \in 0..2}
QTerms == {<<>>} \cup {<<a>> : a \in QTerm} \cup (IF NT > 1 THEN {<<a, b>> : a, b \in QTerm} ELSE {})
\* the affine part first, then size, flags and the quadratic part
Pick == \/ /\ nv = 0 /\ e.c = 0 /\ UNCHANGED <<nv, fl>> /\ \E a \in AffTerms : e' = [c |-> 3, a |-> a, q |-> <<>>]
        \/ /\ nv = 0 /\ e.c = 3 /\ nv' \in 1..3 /\ fl' \in {1, 2, 3, 4}
           /\ \E q \in QTerms : (Len(e.a) < 2 \/ Len(q) < 2) /\ e' = [e EXCEPT !.q = q]
Spec == Init /\ [][Pick]_vars
Halved == fl \in {2, 4}
Ready == nv > 0 /\ ~Beyond(Vars(e), nv)
Pts == [1..N -> {-1, 0, 1, 2}]
M2 == BuildSym2(e, nv, Halved)
Built == Ready => SymOK(e, nv, Halved, M2)
Symmetric == Ready => \A i, j \in 1..nv : M2[i][j] = M2[j][i]
\* x' M x is the quadratic part (twice it when halved); together with the vector and the constant it is the function
SameFunction == Ready => \A x \in Pts : LET y == [i \in 1..nv |-> x[i]] v == [i \in 1..nv |-> AffCoef(e, i - 1)] IN
   QForm(M2, y) + (IF Halved THEN 4 ELSE 2) * (Dot(v, y) + e.c) = (IF Halved THEN 4 ELSE 2) * EvalRaw(e, x) \/ \E i \in (nv + 1)..N : x[i] # 0
Csc(up) == LET c == BuildCsc(M2, nv, nv, up) IN CscOK(c.ri, c.cp, c.v, nv, nv, up, M2)
Compressed == Ready => Csc(0) /\ Csc(1) /\ Csc(2)
PrintScn == nv' = 0 \/ PrintT(<<"SCN", ToJson([x |-> e', nv |-> nv', halved |-> fl' \in {2, 4}, diag |-> fl' > 2])>>)
=============================================================================
