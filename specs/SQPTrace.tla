------------------------------ MODULE SQPTrace ------------------------------
\* Runs the monitors over recorded events; the clauses whose name starts with FOCUS must hold.
EXTENDS SQPMon, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES l, m
E == Trace[l]
InFocus(c) == SubSeq(c, 1, 3) = Focus
\* the variable rows (after the first vo rows) of the bounds the QP solver holds are x +- box
Boxed(e, mm) == /\ Len(e.held.l) >= e.vo + mm.n /\ Len(e.held.u) >= e.vo + mm.n /\ Len(e.R.bx) = mm.n /\ Len(e.R.box) = mm.n
                /\ \A i \in 1..mm.n : /\ e.held.l[e.vo + i] = e.R.bx[i] * 65536 - e.R.box[i]
                                      /\ e.held.u[e.vo + i] = e.R.bx[i] * 65536 + e.R.box[i]
TInit == l = 1 /\ m = [ended |-> TRUE]
TNew == l <= Len(Trace) /\ E.e = "new" /\ l' = l + 1 /\ m' = MonNew(E.P, E.n, E.c, E.v)
Check(e) == LET bad == {c \in Bad(m, e) : InFocus(c)}
            IN IF bad = {} THEN TRUE ELSE PrintT(<<"BROKEN", bad>>) /\ FALSE
TEvent == /\ l <= Len(Trace) /\ E.e # "new" /\ ~m.ended /\ l' = l + 1
          /\ LET e == IF E.e = "solve" /\ "boxed" \notin DOMAIN E THEN E @@ [boxed |-> Boxed(E, m)] ELSE E
             IN Check(e) /\ m' = MonStep(m, e)
TNext == TNew \/ TEvent
TSpec == TInit /\ [][TNext]_<<l, m>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
