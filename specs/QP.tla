-------------------------------- MODULE QP --------------------------------
(* The life of a TrajOptQPProblem: what every call does to what its user     *)
(* sees. s is the state:                                                     *)
(*   n, lo, hi   the user's variables and their limits (in box units)        *)
(*   ts, x       terms added so far and current values                       *)
(*   ready       set up since the last term was added                        *)
(*   mu, box     current penalty coefficients (by name) and box sizes        *)
(*   conv        the QP is assembled; lin, muq, at what point and with what  *)
(*               coefficients; tq the terms then; bl, bu admissible interval *)
EXTENDS QPModel
CONSTANTS BS, Box0, Mu0      \* box units per unit of x; defaults of setup

New(n, lo, hi, x) == [n |-> n, lo |-> lo, hi |-> hi, ts |-> <<>>, x |-> x, ready |-> FALSE, conv |-> FALSE]
Cnts(s) == {s.ts[j].name : j \in {j \in DOMAIN s.ts : s.ts[j].kind = "cnt"}}
Costs(s) == {s.ts[j].name : j \in {j \in DOMAIN s.ts : s.ts[j].kind # "cnt"}}
Term(s, nm) == s.ts[CHOOSE j \in DOMAIN s.ts : s.ts[j].name = nm]
\* bounds a term of this kind may have
KindOK(t) == \A k \in DOMAIN t.rows : CASE t.kind \in {"sq", "abs"} -> t.rows[k].b = "eq"
                                         [] t.kind = "hinge" -> t.rows[k].b # "eq" [] t.kind = "cnt" -> TRUE
Interval(s, x, box) == [bl |-> [i \in 1..s.n |-> BoxLo(x[i] * BS, box[i], s.lo[i], s.hi[i])],
                        bu |-> [i \in 1..s.n |-> BoxHi(x[i] * BS, box[i], s.lo[i], s.hi[i])]]
Rebox(s, box) == LET iv == Interval(s, s.x, box) IN
  IF s.conv THEN [s EXCEPT !.box = box, !.bl = iv.bl, !.bu = iv.bu] ELSE [s EXCEPT !.box = box]
AddT(s, t) == [s EXCEPT !.ts = Append(@, t), !.ready = FALSE, !.conv = FALSE]
SetupT(s) == [n |-> s.n, lo |-> s.lo, hi |-> s.hi, ts |-> s.ts, x |-> s.x, ready |-> TRUE, conv |-> FALSE,
              mu |-> [nm \in Cnts(s) |-> Mu0], box |-> [i \in 1..s.n |-> Box0]]
SetX(s, x) == [s EXCEPT !.x = x]
SetBox(s, b) == Rebox(s, b)
Scale(s, num, den) == Rebox(s, [i \in 1..s.n |-> (s.box[i] * num) \div den])
SetMu(s, mu) == [s EXCEPT !.mu = mu]
Conv(s) == LET iv == Interval(s, s.x, s.box) IN
  [n |-> s.n, lo |-> s.lo, hi |-> s.hi, ts |-> s.ts, x |-> s.x, ready |-> TRUE, conv |-> TRUE, mu |-> s.mu, box |-> s.box,
   lin |-> s.x, muq |-> s.mu, bl |-> iv.bl, bu |-> iv.bu]

-----------------------------------------------------------------------------
\* what is observed: a QP (see QPModel) whose last rows' limits are in box units
QPShapeOK(s, qp) == qp.n = s.n /\ ShapeOK(qp) /\ StructureOK(qp)
QPModelOK(s, qp, Y) == Means(qp, s.ts, s.muq, s.lin, Y)
QPBoundsOK(s, qp) == \A i \in 1..s.n : qp.l[NG(qp) + i] = s.bl[i] /\ qp.u[NG(qp) + i] = s.bu[i]
\* values by name: seq of [nm, v]
ByName(names, vals) == {<<names[i], vals[i]>> : i \in DOMAIN names}
NamesOK(s, e) == /\ Len(e.cn) = Len(e.c) /\ Len(e.vn) = Len(e.v)
                 /\ Len(e.cn) = Cardinality(Costs(s)) /\ Len(e.vn) = Cardinality(Cnts(s))
                 /\ {e.cn[i] : i \in DOMAIN e.cn} = Costs(s) /\ {e.vn[i] : i \in DOMAIN e.vn} = Cnts(s)
                 /\ e.nc = Len(e.cn) /\ e.nv = Len(e.vn) /\ e.n = s.n
ExactOK(s, e) == /\ \A p \in ByName(e.cn, e.c) : p[2] = ExactTerm(Term(s, p[1]), s.x)
                 /\ \A p \in ByName(e.vn, e.v) : p[2] = ExactTerm(Term(s, p[1]), s.x)
                 /\ e.tot = Sum(e.c)
ConvexOK(s, cn, vn, y, c, v, tot) ==
  /\ Len(c) = Len(cn) /\ Len(v) = Len(vn)
  /\ \A p \in ByName(cn, c) : p[2] = ConvexTerm(Term(s, p[1]), s.lin, y)
  /\ \A p \in ByName(vn, v) : p[2] = ConvexTerm(Term(s, p[1]), s.lin, y)
  /\ tot = Sum(c)
=============================================================================
