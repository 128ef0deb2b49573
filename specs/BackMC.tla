------------------------------- MODULE BackMC -------------------------------
(* A library's workspace that is used again: it keeps the cells (row, column) of the first problem and only takes new values, in the
   order of the cells, as long as the model says the cells are the same. What it holds must be the problem of every solve, although
   solves may fail, updates may be refused, and terms and constraints come and go. Compare is how many cells the model compares. *)
EXTENDS SolverModel, Json
CONSTANTS N, Rounds, Compare, Rich
VARIABLES m, ws, ops, phase
vars == <<m, ws, ops, phase>>
NoWs == [set |-> FALSE, solved |-> FALSE, pc |-> <<>>, pv |-> <<>>, ac |-> <<>>, av |-> <<>>]
Start0 == SetObjective([NoModel EXCEPT !.vars = [i \in 1..N |-> [lo |-> -INF, hi |-> INF, live |-> TRUE]]], Zero)
Init == m = Start0 /\ ws = NoWs /\ phase = "change"
        /\ ops = [i \in 1..N |-> [o |-> "var", lo |-> -INF, hi |-> INF]]
\* the cells of the Hessian's upper triangle and of the rows, column by column
RECURSIVE Cols(_)
Cols(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x[2] < y[2] \/ (x[2] = y[2] /\ x[1] <= y[1]) IN <<x>> \o Cols(S \ {x})
Hess(x) == {c \in (1..N) \X (1..N) : c[1] <= c[2] /\ Quad(x.obj, c[1], c[2]) # 0}
LiveSeq(x) == SelectSeq([i \in DOMAIN x.cnts |-> i], LAMBDA i : x.cnts[i].live)
RowCells(x) == LET s == LiveSeq(x) IN {c \in (1..Len(s)) \X (1..N) : Lin(x.cnts[s[c[1]]].e, c[2]) # 0}
HessVal(x, c) == (IF c[1] = c[2] THEN 2 ELSE 1) * Quad(x.obj, c[1], c[2])
RowVal(x, c) == Lin(x.cnts[LiveSeq(x)[c[1]]].e, c[2])
Match(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : i <= Compare => a[i] = b[i]
Problem(x) == LET pc == Cols(Hess(x))  ac == Cols(RowCells(x)) IN
              [pc |-> pc, pv |-> [i \in DOMAIN pc |-> HessVal(x, pc[i])], ac |-> ac, av |-> [i \in DOMAIN ac |-> RowVal(x, ac[i])]]
\* what the library holds, as functions of the cell
Held(cs, vs, c) == IF \E i \in DOMAIN cs : cs[i] = c THEN vs[CHOOSE i \in DOMAIN cs : cs[i] = c] ELSE 0
QTerms == {<<>>} \cup {<<<<i, i, 1>>>> : i \in 1..N} \cup {<<<<i, j, 2>>>> : i, j \in 1..N}
          \cup {<<<<i, i, 1>>, <<j, k, 3>>>> : i, j, k \in 1..N}
STerms == {q \in QTerms : (\A i \in DOMAIN q : q[i][1] <= q[i][2]) /\ (Rich => Len(q) <= 1)}
Objs == {[c |-> 0, a |-> <<<<1, 1>>>>, q |-> q] : q \in STerms}
Lins == {[c |-> -1, a |-> <<<<i, 2>>>>, q |-> <<>>] : i \in 1..N} \cup
        {[c |-> 1, a |-> <<<<i, 1>>, <<j, -2>>>>, q |-> <<>>] : i, j \in 1..N}
Did(o) == ops' = Append(ops, o)
\* one round: perhaps another objective, perhaps another constraint in place of the oldest, then a solve
Obj == phase = "change" /\ \E e \in Objs : e # m.obj /\ m' = SetObjective(m, e) /\ Did([o |-> "objq", e |-> e]) /\ phase' = "rows" /\ ws' = ws
KeepObj == phase = "change" /\ phase' = "rows" /\ UNCHANGED <<m, ws, ops>>
Row == /\ phase = "rows" /\ Rich
       /\ \E e \in Lins : /\ m' = AddCnt(RemoveCnts(m, LiveC(m)), "eq", e) /\ phase' = "solve" /\ ws' = ws
                          /\ ops' = IF LiveC(m) = {} THEN Append(ops, [o |-> "eq", e |-> e]) ELSE ops \o <<[o |-> "rmc", ids |-> LiveC(m)], [o |-> "eq", e |-> e]>>
KeepRow == phase = "rows" /\ phase' = "solve" /\ UNCHANGED <<m, ws, ops>>
Solves == Cardinality({i \in DOMAIN ops : ops[i].o = "solve"})
Solve == /\ phase = "solve" /\ Solves < Rounds
         /\ \E ok, refused \in BOOLEAN :
              LET p == Problem(m)
                  again == ws.set /\ ws.solved /\ Match(ws.pc, p.pc) /\ Match(ws.ac, p.ac) /\ ~refused IN
              /\ refused => ws.set
              /\ ws' = IF again THEN [ws EXCEPT !.pv = p.pv, !.av = p.av, !.solved = ok]
                       ELSE [set |-> TRUE, solved |-> ok, pc |-> p.pc, pv |-> p.pv, ac |-> p.ac, av |-> p.av]
              /\ Did([o |-> "solve", code |-> IF ok THEN 2 ELSE 7, refused |-> refused])
         /\ m' = m /\ phase' = "change"
Next == Obj \/ KeepObj \/ Row \/ KeepRow \/ Solve
Spec == Init /\ [][Next]_vars
View == <<m, ws, phase, Len(ops)>>
\* the library always holds the problem it is asked to solve
Holds == (phase = "change" /\ ws.set) =>
  /\ \A c \in (1..N) \X (1..N) : Held(ws.pc, ws.pv, c) = IF c \in Hess(m) THEN HessVal(m, c) ELSE 0
  /\ \A c \in (1..Len(LiveSeq(m))) \X (1..N) : Held(ws.ac, ws.av, c) = IF c \in RowCells(m) THEN RowVal(m, c) ELSE 0
\* workspaces are used again whenever they may be
PrintDone == (ops'[Len(ops')].o = "solve" /\ Solves' = Rounds /\ ops' # ops) => PrintT(<<"SCN", ToJson(ops')>>)
=============================================================================
