---------------------------- MODULE ConvexTrace ----------------------------
EXTENDS Convex, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, px     \* st: the model (Convex); px: what the problem and its approximations are
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
Now == {b[1] : b \in Rng(E.bnd)}
RowsNow == Rng(E.mrows)
InModel == /\ Clause("variables", Cardinality(Now) = Len(E.bnd) /\ Now = LiveVars(st'))
           /\ Clause("rows", Cardinality(RowsNow) = Len(E.mrows) /\ RowsNow = LiveRows(st'))
           /\ Clause("handles", E.foreign = 0)
Grid(n) == IF n = 1 THEN {<<a>> : a \in -3..3} ELSE IF n = 2 THEN {<<a, b>> : a, b \in {-2, 1, 3}} ELSE {<<a, b, c>> : a, b, c \in {-2, 1, 3}}
At(av, v) == (CHOOSE x \in Rng(av) : x[1] = v)[2]
ValueAt(o, av) == o.c + SumTo(LAMBDA i : o.a[i][2] * At(av, o.a[i][1]), Len(o.a)) + SumTo(LAMBDA i : o.q[i][3] * At(av, o.q[i][1]) * At(av, o.q[i][2]), Len(o.q))
Aux == Now \ LiveVars(st)
Sub(id) == st.objs[id]
\* the rows handed over for a constraint, compared as functions on the grid
Sig(kind, v) == IF kind = "eq" THEN [X \in DOMAIN v |-> Abs(v[X])] ELSE v
RowFun(r, G, n) == [X \in G |-> BasePart(r, n, X)]
RowsMatch(o, rows, n) ==
  LET G == Grid(n)
      kept == Kept(o)
      want == [k \in DOMAIN kept |-> Sig(o.kind, [X \in G |-> LinRow(o, k, X)])]
      rs == {[k |-> r.k, f |-> Sig(o.kind, RowFun(r, G, n))] : r \in rows}
  IN /\ \A r \in rows : AuxOf(r, n) = {} /\ r.t = (IF o.kind = "eq" THEN 0 ELSE 1)
     /\ Cardinality(rs) = Len(kept)
     /\ \A k \in DOMAIN kept : Cardinality({r \in rs : r.f = want[k]}) = Cardinality({j \in DOMAIN kept : want[j] = want[k]})
Step ==
  CASE E.e = "new" ->
         LET lo == IF E.bounded THEN E.lo ELSE [i \in 1..E.n |-> -INF]  hi == IF E.bounded THEN E.hi ELSE [i \in 1..E.n |-> INF] IN
         /\ st' = [n |-> E.n, objs |-> <<>>, lin |-> {}] /\ px' = [lo |-> lo, hi |-> hi, obj |-> <<>>, costs |-> <<>>, eqs |-> <<>>, ineqs |-> <<>>]
         /\ Clause("created", E.same /\ E.nv = E.n /\ E.glo = lo /\ E.ghi = hi)
         /\ Clause("bounds", \A b \in Rng(E.bnd) : b[2] = lo[b[1]] /\ b[3] = hi[b[1]])
    [] E.e = "build" ->
         /\ st' = Build(st, Aux)
         /\ px' = [px EXCEPT !.obj = Append(@, [op |-> E, ab |-> SelectSeq(E.bnd, LAMBDA b : b[1] \in Aux)])]
         /\ Clause("id", E.id = Len(st.objs) + 1)
         /\ IF E.kind \in {"eq", "ineq"}
            THEN /\ Clause("noaux", Aux = {})
                 /\ Clause("type", E.type = (IF E.kind = "eq" THEN 0 ELSE 1))
                 /\ \A j \in DOMAIN E.pts : /\ Clause("exact", E.val[j] = CntVal(E, E.pts[j]))
                                            /\ Clause("violations", E.viol[j] = CntViol(E, E.pts[j]))
                                            /\ Clause("violation", E.tot[j] = SumTo(LAMBDA i : CntViol(E, E.pts[j])[i], Len(E.rows)))
                                            /\ Clause("convexviol", Len(E.cviol[j]) = Len(Kept(E)) /\ \A k \in DOMAIN Kept(E) : E.cviol[j][k] = Pen(E.kind, LinRow(E, k, E.pts[j])))
                                            /\ Clause("convextotal", E.ctot[j] = SumTo(LAMBDA k : Pen(E.kind, LinRow(E, k, E.pts[j])), Len(Kept(E))))
            ELSE IF E.kind \in {"fdiag", "ffull"}
            THEN /\ Clause("noaux", Aux = {})
                 /\ Clause("exact", \A j \in DOMAIN E.pts : E.val[j] = Eval(E.rows[1], Loc(E.vars, E.pts[j])))
                 /\ Clause("secondorder", SecondOrderOK(E, E.obj, st.n))
            ELSE /\ Clause("exact", \A j \in DOMAIN E.pts : E.val[j] = CostVal(E, E.pts[j]))
                 /\ Clause("value", E.cv = ValueAt(E.obj, E.av))
    [] E.e = "man" ->
         /\ st' = Build(st, Aux)
         /\ px' = [px EXCEPT !.obj = Append(@, [op |-> E, ab |-> SelectSeq(E.bnd, LAMBDA b : b[1] \in Aux)])]
         /\ Clause("id", E.id = Len(st.objs) + 1)
         /\ Clause("value", E.cv = ValueAt(E.obj, E.av))
    [] E.e = "add" ->
         LET rows == RowsNow \ LiveRows(st)
             p == px.obj[E.id]
             rq == SetToSeq(rows) IN
         /\ st' = AddToModel(st, E.id, rows) /\ px' = px
         /\ IF p.op.e = "build" /\ p.op.kind \in {"eq", "ineq"}
            THEN Clause("constraint", RowsMatch(p.op, rows, st.n))
            ELSE IF p.op.e = "build" /\ p.op.kind \in {"fdiag", "ffull"} THEN Clause("norows", rows = {})
            ELSE /\ Clause("readable", Readable(p.op.obj, rq, p.ab, st.n))
                 /\ Clause("penalty", \A X \in Grid(st.n) \cup (IF p.op.e = "build" THEN {p.op.x0} ELSE {}) :
                      IsVal(MinAux(p.op.obj, rq, p.ab, st.n, X), IF p.op.e = "build" THEN ModelVal(p.op, X) ELSE CallsVal(p.op.calls, X)))
    [] E.e = "drop" -> st' = Drop(st, E.id) /\ px' = px /\ Clause("out", ~E.in)
    [] E.e \in {"feas", "central"} ->
         /\ UNCHANGED <<st, px>>
         /\ \A i \in DOMAIN E.x :
              LET lo == IF px.lo[i] = -INF THEN -INF ELSE 1000 * px.lo[i]  hi == IF px.hi[i] = INF THEN INF ELSE 1000 * px.hi[i] IN
              Clause("feasible", IF E.e = "feas" THEN FeasOK(E.y[i], E.x[i], lo, hi, E.d) ELSE FeasOK(E.y[i], (lo + hi) \div 2, lo, hi, E.d))
         /\ Clause("size", Len(E.y) = Len(E.x))
    [] E.e = "feasqp" ->
         /\ UNCHANGED <<st, px>>
         /\ Clause("objective", /\ {<<q[1], q[2], q[3]>> : q \in Rng(E.obj.q)} = {<<i, i, 1>> : i \in 1..st.n}
                                /\ \A i \in 1..st.n : CoefOf(E.obj, i) = -2 * E.x[i]
                                /\ AuxOf(E.obj, st.n) = {})
         /\ Clause("qpbounds", \A b \in Rng(E.qb) : b[1] <= st.n => b[2] = px.lo[b[1]] /\ b[3] = px.hi[b[1]])
         /\ Clause("answer", IF E.st = 0 THEN ~E.threw /\ E.y = E.ans ELSE E.threw)
    [] E.e = "bounds" ->
         LET set(old, new) == IF E.all THEN new ELSE [i \in DOMAIN old |-> IF \E j \in DOMAIN E.vars : E.vars[j] = i THEN new[CHOOSE j \in DOMAIN E.vars : E.vars[j] = i] ELSE old[i]] IN
         /\ st' = st /\ px' = [px EXCEPT !.lo = set(@, E.lo), !.hi = set(@, E.hi)]
         /\ Clause("setbounds", E.glo = px'.lo /\ E.ghi = px'.hi)
    [] E.e = "lin" ->
         LET new == RowsNow \ LiveRows(st) IN
         /\ px' = px /\ st' = [st EXCEPT !.lin = @ \cup new]
         /\ Clause("linear", Cardinality(new) = 1 /\ \A r \in new : /\ r.t = E.t /\ AuxOf(r, st.n) = {}
                                                                  /\ \A X \in Grid(st.n) : LET v == BasePart(r, st.n, X) w == Aff(E.row, X) IN IF E.t = 0 THEN Abs(v) = Abs(w) ELSE v = w)
    [] E.e = "reg" ->
         /\ st' = st
         /\ px' = CASE E.what = "cost" -> [px EXCEPT !.costs = Append(@, E.name)]
                    [] E.what = "eq" -> [px EXCEPT !.eqs = Append(@, E.name)]
                    [] E.what = "ineq" -> [px EXCEPT !.ineqs = Append(@, E.name)]
         /\ Clause("registered", /\ E.costs = px'.costs /\ E.eqs = px'.eqs /\ E.ineqs = px'.ineqs /\ E.all = px'.eqs \o px'.ineqs
                                 /\ E.nc = Len(px'.costs) /\ E.nn = Len(px'.eqs) + Len(px'.ineqs))
TInit == l = 1 /\ st = [n |-> 0, objs |-> <<>>, lin |-> {}] /\ px = [lo |-> <<>>, hi |-> <<>>, obj |-> <<>>, costs |-> <<>>, eqs |-> <<>>, ineqs |-> <<>>]
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ InModel
TSpec == TInit /\ [][TNext]_<<l, st, px>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
