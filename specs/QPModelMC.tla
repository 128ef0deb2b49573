----------------------------- MODULE QPModelMC -----------------------------
\* The construction means the model, for every problem of a small family: states are the problems.
EXTENDS QPModel
Coefs == {-1, 2}
Xs == {<<1, -1>>, <<0, 2>>}
Targets == {0, 2}
Weights == {1, 3}
Mus == {1, 2}
VARIABLES terms, mu, lin
RowSet == {[c |-> c, a |-> <<a1, 1>>, q |-> q, b |-> b, t |-> t, w |-> w] :
            c \in {1}, a1 \in Coefs, q \in {<<>>, <<<<1, 2, 1>>>>}, b \in {"eq", "lo", "up"}, t \in Targets, w \in Weights}
KindOK(k, b) == CASE k \in {"sq", "abs"} -> b = "eq" [] k = "hinge" -> b # "eq" [] k = "cnt" -> TRUE
TermSet(nm) == {[name |-> nm, kind |-> k, dyn |-> d, rows |-> <<r>>] :
               k \in {"sq", "abs", "hinge", "cnt"}, d \in {0, 2}, r \in RowSet}
Good(t) == KindOK(t.kind, t.rows[1].b)
Second == {t \in TermSet("q") : Good(t) /\ t.dyn = 0 /\ t.rows[1].q # <<>> /\ t.rows[1].w = 3 /\ t.rows[1].a[1] = 2}
Init == terms = <<>> /\ mu = [nm \in {"p", "q"} |-> 1] /\ lin = <<0, 2>>
Next == \/ terms = <<>> /\ \E t1 \in {t \in TermSet("p") : Good(t)} : terms' = <<t1>> /\ UNCHANGED <<mu, lin>>
        \/ Len(terms) = 1 /\ \E t2 \in Second : terms' = terms \o <<t2>> /\ mu' \in [{"p", "q"} -> Mus] /\ lin' \in Xs
Spec == Init /\ [][Next]_<<terms, mu, lin>>
Qp == Build(terms, mu, lin, 2)
Y == {<<a, b>> : a \in -2..2, b \in {-1, 0, 2}}
ConstructionOK == ShapeOK(Qp) /\ StructureOK(Qp)
ConstructionMeans == Means(Qp, terms, mu, lin, Y)
\* at the linearisation point the linear model is exact
ConvexExact == \A j \in DOMAIN terms : ConvexTerm(terms[j], lin, lin) = ExactTerm(terms[j], lin)
=============================================================================
