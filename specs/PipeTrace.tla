----------------------------- MODULE PipeTrace -----------------------------
(* Conversations of the real sender and receiver: whatever calls were divided or interrupted, what is received is what was sent. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, q
E == Trace[l]
Clause(nm, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN", nm>>) /\ FALSE
Step ==
  CASE E.e = "new" -> q' = <<>>
    [] E.e = "send" -> q' = Append(q, E.msg)
    [] E.e = "recv" -> Clause("nothing sent", q # <<>>) /\ Clause("intact", E.msg = q[1]) /\ q' = Tail(q)
    [] E.e = "end" -> Clause("apart", E.left = 0) /\ Clause("all", q = <<>>) /\ q' = q
    [] E.e = "exit" -> Clause("ended", E.ended) /\ q' = q
    [] E.e = "starved" -> Clause("starved", FALSE) /\ q' = q
TInit == l = 1 /\ q = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, q>>
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
