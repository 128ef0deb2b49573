------------------------------- MODULE Pipe -------------------------------
(* Messages over a byte stream (bpmpd_io). A message is a sequence of parts, a part a number of bytes; a part may announce the size
   of the next one ("hdr"). Sender and receiver move one part after the other; the operating system moves, at every call, any
   number of the bytes asked for (at least one), or interrupts the call. A byte is known by its message, part and offset. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Formats,    \* the messages, e.g. <<<<"tag", 1>>, <<"hdr", 2>>, <<"data", 3>>>>
          MaxMsgs, MaxIntr,
          Loop        \* TRUE: a part is finished before the next is begun. FALSE: one call per part
VARIABLES msgs, w, r, ch, place, intr, calls
vars == <<msgs, w, r, ch, place, intr, calls>>
At == [m |-> 1, p |-> 1, off |-> 0]
Init == /\ msgs \in UNION {[1..k -> Formats] : k \in 1..MaxMsgs}
        /\ w = At /\ r = At /\ ch = <<>> /\ place = <<>> /\ intr = 0 /\ calls = <<>>
Finished(a) == a.m > Len(msgs)
Size(a) == msgs[a.m][a.p][2]
\* how long the receiver takes the part to be: what the header said, if it says so
Believed(a) == IF a.p > 1 /\ msgs[a.m][a.p - 1][1] = "hdr" /\ ~(\A k \in 0..(msgs[a.m][a.p - 1][2] - 1) : <<a.m, a.p - 1, k>> \in {<<x[2][1], x[2][2], x[2][3]>> : x \in {y \in {place[i] : i \in DOMAIN place} : y[1] = <<a.m, a.p - 1, k>>}})
               THEN 0 ELSE Size(a)
NextPart(a) == IF a.p < Len(msgs[a.m]) THEN [m |-> a.m, p |-> a.p + 1, off |-> 0] ELSE [m |-> a.m + 1, p |-> 1, off |-> 0]
After(a, k, size) == IF Loop /\ a.off + k < size THEN [a EXCEPT !.off = @ + k] ELSE NextPart(a)
Call(who, a, size, k) == calls' = Append(calls, <<who, IF size - a.off = 0 THEN "full" ELSE IF k = 0 THEN "intr" ELSE IF k = size - a.off THEN "full" ELSE IF k = 1 THEN "one" ELSE "most">>)
Write == /\ ~Finished(w)
         /\ \E k \in (IF Size(w) = 0 THEN {0} ELSE 1..(Size(w) - w.off)) :
              /\ ch' = ch \o [i \in 1..k |-> <<w.m, w.p, w.off + i - 1>>]
              /\ w' = After(w, k, Size(w)) /\ Call("w", w, Size(w), k)
         /\ UNCHANGED <<msgs, r, place, intr>>
Read == /\ ~Finished(r)
        /\ LET size == Believed(r) IN
           \E k \in (IF size = 0 THEN {0} ELSE 1..(IF Len(ch) < size - r.off THEN Len(ch) ELSE size - r.off)) :
              /\ ch' = SubSeq(ch, k + 1, Len(ch))
              /\ place' = place \o [i \in 1..k |-> <<<<r.m, r.p, r.off + i - 1>>, ch[i]>>]
              /\ r' = After(r, k, size) /\ Call("r", r, size, k)
        /\ UNCHANGED <<msgs, w, intr>>
Interrupt(who, a) == /\ ~Finished(a) /\ intr < MaxIntr /\ intr' = intr + 1
                     /\ calls' = Append(calls, <<who, "intr">>)
                     /\ IF Loop THEN a' = a ELSE a' = NextPart(a)
Intr == (Interrupt("w", w) /\ UNCHANGED <<msgs, r, ch, place>>) \/ (Interrupt("r", r) /\ UNCHANGED <<msgs, w, ch, place>>)
Next == Write \/ Read \/ Intr
Spec == Init /\ [][Next]_vars /\ WF_vars(Write) /\ WF_vars(Read)
View == <<msgs, w, r, ch, place, intr>>
\* every byte arrives at its place, in order, and nothing is left behind
Intact == \A i \in DOMAIN place : place[i][1] = place[i][2]
Apart == Finished(w) /\ Finished(r) => ch = <<>>
Whole == Finished(r) => Len(place) = LET RECURSIVE S(_, _)  S(m, p) == IF m > Len(msgs) THEN 0 ELSE IF p > Len(msgs[m]) THEN S(m + 1, 1) ELSE msgs[m][p][2] + S(m, p + 1) IN S(1, 1)
Arrive == <>(Finished(r) /\ Finished(w))
PrintDone == (w'.m > Len(msgs) /\ r'.m > Len(msgs) /\ ~(w.m > Len(msgs) /\ r.m > Len(msgs))) => PrintT(<<"SCN", ToJson(calls')>>)
=============================================================================
