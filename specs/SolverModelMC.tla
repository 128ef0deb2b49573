--------------------------- MODULE SolverModelMC ---------------------------
(* All short histories of a model, carried out twice: on the abstract model, and on the lists with positions a solver model keeps
   (handles carry a position; removal only marks; update closes the gaps). The positions must always lead to the right entry. *)
EXTENDS SolverModel, Json
CONSTANTS MaxV, MaxC, MaxOps
VARIABLES m, h, ops
vars == <<m, h, ops>>
\* h: vs/cs = sequences of [id, lo, hi, val] / [id]; pos/cpos = what the handles say; gone/cgone = marked
H0 == [vs |-> <<>>, cs |-> <<>>, pos |-> <<>>, cpos |-> <<>>, gone |-> {}, cgone |-> {}]
Init == m = NoModel /\ h = H0 /\ ops = <<>>
IdxIn(s, id) == CHOOSE i \in DOMAIN s : s[i].id = id
Upd(x) == LET vs == SelectSeq(x.vs, LAMBDA e : e.id \notin x.gone)  cs == SelectSeq(x.cs, LAMBDA e : e.id \notin x.cgone) IN
          [x EXCEPT !.vs = vs, !.cs = cs, !.pos = [i \in DOMAIN @ |-> IF i \in x.gone THEN @[i] ELSE IdxIn(vs, i)],
                    !.cpos = [i \in DOMAIN @ |-> IF i \in x.cgone THEN @[i] ELSE IdxIn(cs, i)]]
Bnds == {<<-INF, INF>>, <<-1, 2>>, <<0, INF>>}
Did(o) == ops' = Append(ops, o)
LV == LiveV(m)
Exprs == {[c |-> 0, a |-> <<>>, q |-> <<>>]} \cup {[c |-> 1, a |-> <<<<v, 2>>>>, q |-> <<>>] : v \in LV}
         \cup {[c |-> -2, a |-> <<<<x[1], 1>>, <<x[2], -3>>, <<x[1], 2>>>>, q |-> <<>>] : x \in LV \X LV}
Quads == {[c |-> 1, a |-> <<<<x[1], 1>>>>, q |-> <<<<x[1], x[2], 2>>, <<x[2], x[1], 1>>, <<x[2], x[2], 1>>>>] : x \in LV \X LV}
DoVar == Len(m.vars) < MaxV /\ \E b \in Bnds :
           /\ m' = AddVar(m, b[1], b[2])
           /\ h' = [h EXCEPT !.vs = Append(@, [id |-> Len(m.vars) + 1, lo |-> b[1], hi |-> b[2], val |-> -1]), !.pos = Append(@, Len(h.vs) + 1)]
           /\ Did([o |-> "var", lo |-> b[1], hi |-> b[2]])
DoCnt == Len(m.cnts) < MaxC /\ \E t \in {"eq", "ineq"}, e \in Exprs :
           /\ m' = AddCnt(m, t, e) /\ h' = [h EXCEPT !.cs = Append(@, [id |-> Len(m.cnts) + 1]), !.cpos = Append(@, Len(h.cs) + 1)]
           /\ Did([o |-> t, e |-> e])
DoRmC == \E S \in SUBSET LiveC(m) \ {{}} : m' = RemoveCnts(m, S) /\ h' = [h EXCEPT !.cgone = @ \cup S] /\ Did([o |-> "rmc", ids |-> S])
Free == {v \in LV : v \notin VarsOf(m.obj) /\ \A i \in LiveC(m) : v \notin VarsOf(m.cnts[i].e)}
DoRmV == \E S \in SUBSET Free \ {{}} : m' = RemoveVars(m, S) /\ h' = [h EXCEPT !.gone = @ \cup S] /\ Did([o |-> "rmv", ids |-> S])
DoUpd == m' = m /\ h' = Upd(h) /\ h' # h /\ Did([o |-> "upd"])
DoBnd == \E v \in LV, b \in Bnds : /\ m' = SetBounds(m, <<v>>, <<b[1]>>, <<b[2]>>) /\ m' # m
                                   /\ h' = [h EXCEPT !.vs[h.pos[v]].lo = b[1], !.vs[h.pos[v]].hi = b[2]] /\ Did([o |-> "bnd", ids |-> <<v>>, lo |-> <<b[1]>>, hi |-> <<b[2]>>])
DoObj == \E e \in Exprs \cup Quads : m' = SetObjective(m, e) /\ m' # m /\ h' = h /\ Did([o |-> IF e.q = <<>> THEN "obja" ELSE "objq", e |-> e])
Val(x) == [v \in LV |-> 10 * x.pos[v] + Len(ops)]
DoSolve == LET x == Upd(h) IN
           /\ ops # <<>> /\ ops[Len(ops)].o # "solve" /\ m.vars # <<>>
           /\ h' = [x EXCEPT !.vs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.val = 10 * i + Len(ops)]]]
           /\ m' = Solved(m, Val(x)) /\ Did([o |-> "solve", code |-> 2])
Next == Len(ops) < MaxOps /\ (DoVar \/ DoCnt \/ DoRmC \/ DoRmV \/ DoUpd \/ DoBnd \/ DoObj \/ DoSolve)
Spec == Init /\ [][Next]_vars
View == <<m, h, Len(ops)>>
\* the positions lead to the right entries
Positions == /\ \A v \in LV : h.pos[v] \in DOMAIN h.vs /\ h.vs[h.pos[v]].id = v /\ h.vs[h.pos[v]].lo = m.vars[v].lo /\ h.vs[h.pos[v]].hi = m.vars[v].hi
             /\ \A i \in LiveC(m) : h.cpos[i] \in DOMAIN h.cs /\ h.cs[h.cpos[i]].id = i
Values == m.sol # <<>> => \A v \in LV \cap DOMAIN m.sol : h.vs[h.pos[v]].val = m.sol[v]
Gone == \A v \in DOMAIN m.vars : ~m.vars[v].live <=> v \in h.gone
SoundInv == Sound(m)
PrintDone == (Len(ops') = MaxOps /\ ops'[Len(ops')].o = "solve") => PrintT(<<"SCN", ToJson(ops')>>)
=============================================================================
