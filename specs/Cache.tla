------------------------------- MODULE Cache -------------------------------
(* The keyed LRU object pool of trajopt_common (cache.h).                    *)
(* Objects are identified by the order in which the user first sees them:    *)
(* 1..seen have been handed out at least once, cap - seen never.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES cap,      \* number of pooled objects
          seen,     \* how many different objects have been observed
          keyOf,    \* sequence 1..seen: key under which the object is stored, 0 = none
          lru,      \* stored objects, most recently used first
          out,      \* objects handed out and not (re)stored
          ret       \* result of the last operation (observation)
vars == <<cap, seen, keyOf, lru, out, ret>>

CacheInit(c) ==
  /\ cap = (IF c = 0 THEN 1 ELSE c)
  /\ seen = 0 /\ keyOf = <<>> /\ lru = <<>> /\ out = {} /\ ret = <<"new">>

Objs == 1..seen
Holder(k) == {o \in Objs : keyOf[o] = k}
Known(o)  == o \in Objs
Free      == {o \in Objs : keyOf[o] = 0 /\ o \notin out}
Touch(o)  == <<o>> \o SelectSeq(lru, LAMBDA x : x # o)
Size      == Cardinality({o \in Objs : keyOf[o] # 0})

\* get(k): the stored object, or a miss; a hit refreshes recency
Get(k) ==
  /\ IF Holder(k) = {}
     THEN ret' = <<"get", k, 0>> /\ lru' = lru
     ELSE LET o == CHOOSE o \in Holder(k) : TRUE
          IN ret' = <<"get", k, o>> /\ lru' = Touch(o)
  /\ UNCHANGED <<cap, seen, keyOf, out>>

\* getOrAcquire(k) on a hit
AcquireHit(k) ==
  /\ Holder(k) # {}
  /\ LET o == CHOOSE o \in Holder(k) : TRUE
     IN ret' = <<"acq", k, o, TRUE>> /\ lru' = Touch(o)
  /\ UNCHANGED <<cap, seen, keyOf, out>>

\* getOrAcquire(k) on a miss, served by an object already known to be free
AcquireFree(k, o) ==
  /\ Holder(k) = {} /\ o \in Free
  /\ out' = out \cup {o} /\ ret' = <<"acq", k, o, FALSE>>
  /\ UNCHANGED <<cap, seen, keyOf, lru>>

\* ... by an object never handed out so far
AcquireFresh(k) ==
  /\ Holder(k) = {} /\ seen < cap
  /\ seen' = seen + 1 /\ keyOf' = Append(keyOf, 0)
  /\ out' = out \cup {seen + 1} /\ ret' = <<"acq", k, seen + 1, FALSE>>
  /\ UNCHANGED <<cap, lru>>

\* ... by evicting the least recently used entry: only when nothing is free
AcquireEvict(k) ==
  /\ Holder(k) = {} /\ Free = {} /\ seen = cap /\ lru # <<>>
  /\ LET o == lru[Len(lru)]
     IN /\ keyOf' = [keyOf EXCEPT ![o] = 0]
        /\ lru' = SubSeq(lru, 1, Len(lru) - 1)
        /\ out' = out \cup {o} /\ ret' = <<"acq", k, o, FALSE>>
  /\ UNCHANGED <<cap, seen>>

\* ... by doubling the pool: only when every object is handed out
AcquireGrow(k) ==
  /\ Holder(k) = {} /\ Free = {} /\ seen = cap /\ lru = <<>>
  /\ cap' = 2 * cap /\ seen' = seen + 1 /\ keyOf' = Append(keyOf, 0)
  /\ out' = out \cup {seen + 1} /\ ret' = <<"acq", k, seen + 1, FALSE>>
  /\ UNCHANGED lru

Acquire(k) == \/ AcquireHit(k) \/ AcquireFresh(k) \/ AcquireEvict(k) \/ AcquireGrow(k)
              \/ \E o \in Free : AcquireFree(k, o)

\* put(k, o): o becomes the only object of k, k the only key of o, o most recently used and no longer handed out
Put(k, o) ==
  /\ Known(o)
  /\ LET old == Holder(k) \ {o}
     IN /\ keyOf' = [p \in Objs |-> IF p = o THEN k ELSE IF p \in old THEN 0 ELSE keyOf[p]]
        /\ lru' = <<o>> \o SelectSeq(lru, LAMBDA x : x # o /\ x \notin old)
  /\ out' = out \ {o} /\ ret' = <<"put", k, o, TRUE>>
  /\ UNCHANGED <<cap, seen>>

\* put of a null or foreign object is refused and changes nothing
PutRefused(k) == ret' = <<"put", k, 0, FALSE>> /\ UNCHANGED <<cap, seen, keyOf, lru, out>>

Erase(k) ==
  /\ LET h == Holder(k)
     IN /\ keyOf' = [p \in Objs |-> IF p \in h THEN 0 ELSE keyOf[p]]
        /\ lru' = SelectSeq(lru, LAMBDA x : x \notin h)
  /\ ret' = <<"erase", k>>
  /\ UNCHANGED <<cap, seen, out>>

-----------------------------------------------------------------------------
\* Properties of the design
TypeOK ==
  /\ cap \in Nat \ {0} /\ seen \in 0..cap /\ Len(keyOf) = seen
  /\ out \subseteq Objs
KeyUnique  == \A a, b \in Objs : keyOf[a] # 0 /\ keyOf[a] = keyOf[b] => a = b
OutHidden  == \A o \in out : keyOf[o] = 0
LruExact   == /\ {lru[i] : i \in DOMAIN lru} = {o \in Objs : keyOf[o] # 0}
              /\ \A i, j \in DOMAIN lru : i # j => lru[i] # lru[j]
SizeBound  == Size + Cardinality(out) <= cap
\* a handed-out object is handed out to nobody else
ExclusiveOut == [][ \A o \in out : ret'[1] = "acq" /\ ret'[3] = o => FALSE ]_vars
\* growth only when everything is handed out
GrowOnlyWhenOut == [][ cap' # cap => Cardinality(out) = cap ]_vars
\* an entry disappears only by erase, by re-putting, or as the least recently used one on a full miss
EvictLast == [][ ret'[1] = "acq" => \A o \in Objs : keyOf[o] # 0 /\ keyOf'[o] = 0
                    => o = lru[Len(lru)] /\ Free = {} /\ seen = cap ]_vars
=============================================================================
