----------------------------- MODULE SimpleQP -----------------------------
(* IfoptQPProblem, the simpler of the two QP problems, as an instance of QP: *)
(* it knows squared (and absolute) cost sets and fixed constraint sets. It   *)
(* gives every constraint row its own violation, penalty coefficient and     *)
(* name, does not weight constraint rows, and names costs after the cost.    *)
EXTENDS QP
Refused(t) == t.dyn # 0 \/ t.kind = "hinge"
Expand(t) ==
  CASE t.kind = "cnt" -> [k \in DOMAIN t.rows |-> [name |-> t.name \o "_" \o ToString(k - 1), kind |-> "cnt", dyn |-> 0,
                                                   rows |-> <<[t.rows[k] EXCEPT !.w = 1]>>]]
    [] t.kind = "sq" -> <<[t EXCEPT !.name = t.name \o "_squared_cost_0"]>>
    [] t.kind = "abs" -> <<[t EXCEPT !.name = t.name \o "_absolute_cost_0"]>>
RECURSIVE AddAll(_, _)
AddAll(s, ts) == IF ts = <<>> THEN s ELSE AddAll(AddT(s, Head(ts)), Tail(ts))
AddS(s, t) == AddAll(s, Expand(t))
\* setup refuses rows that are neither equalities nor one-sided
SetupRefused(s) == \E j \in DOMAIN s.ts : \E k \in DOMAIN s.ts[j].rows : s.ts[j].rows[k].b = "rg"

(* Known finding: absolute costs enter the QP and the convex cost values as  *)
(* if they were squared (only their value at the linearisation point is      *)
(* right). Problems with absolute costs are judged as that deviation or as   *)
(* the model; one problem is judged strictly.                                *)
AsSq(t) == IF t.kind = "abs" THEN [t EXCEPT !.kind = "sq"] ELSE t
Deviant(ts) == [j \in DOMAIN ts |-> AsSq(ts[j])]
DeviantValue(t, lin, y) == IF t.kind = "abs" THEN ExactTerm(t, lin) + ConvexTerm(AsSq(t), lin, y) - ConvexTerm(AsSq(t), lin, lin)
                           ELSE ConvexTerm(t, lin, y)
DeviantOK(s, cn, vn, y, c, v, tot) ==
  /\ Len(c) = Len(cn) /\ Len(v) = Len(vn) /\ tot = Sum(c)
  /\ \A p \in ByName(cn, c) : p[2] = DeviantValue(Term(s, p[1]), s.lin, y)
  /\ \A p \in ByName(vn, v) : p[2] = ConvexTerm(Term(s, p[1]), s.lin, y)
=============================================================================
