--------------------------- MODULE CollisionCache ---------------------------
\* A collision constraint between two waypoints: it keeps the answers of the last three motions it was asked about and
\* uses the records again that it no longer needs. Whatever was set and asked before, it must show the motion of now.
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Cap, States1, States2, Refill
VARIABLES cur, cache, shown
cvars == <<cur, cache, shown>>
Keys == States1 \X States2
Nothing == <<0, 0>>
CInit == cur = <<CHOOSE x \in States1 : TRUE, CHOOSE x \in States2 : TRUE>> /\ cache = <<>> /\ shown = Nothing
Set1(x) == x \in States1 /\ x # cur[1] /\ cur' = <<x, cur[2]>> /\ shown' = Nothing /\ UNCHANGED cache
Set2(x) == x \in States2 /\ x # cur[2] /\ cur' = <<cur[1], x>> /\ shown' = Nothing /\ UNCHANGED cache
\* newest first; each entry: the motion it was made for and what it holds
Hit == {i \in DOMAIN cache : cache[i].key = cur}
Look ==
  /\ UNCHANGED cur
  /\ IF Hit # {}
     THEN LET i == CHOOSE i \in Hit : TRUE IN shown' = cache[i].val /\ cache' = <<cache[i]>> \o RemoveAt(cache, i)
     ELSE LET old == IF Len(cache) = Cap THEN cache[Cap].val ELSE Nothing
              val == IF Refill \/ old = Nothing THEN cur ELSE old
              rest == IF Len(cache) = Cap THEN SubSeq(cache, 1, Cap - 1) ELSE cache
          IN shown' = val /\ cache' = <<[key |-> cur, val |-> val]>> \o rest
CNext == Look \/ (\E x \in States1 : Set1(x)) \/ (\E x \in States2 : Set2(x))
Fresh == shown # Nothing => shown = cur
Sound == \A i \in DOMAIN cache : cache[i].val = cache[i].key /\ \A j \in DOMAIN cache : i # j => cache[i].key # cache[j].key
Small == Len(cache) <= Cap
=============================================================================
