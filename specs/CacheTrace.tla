----------------------------- MODULE CacheTrace -----------------------------
EXTENDS Cache, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
\* every event reports the counts after the operation
Counts == E.size = Cardinality({o \in 1..seen' : keyOf'[o] # 0}) /\ E.cap = cap'
TInit == l = 1 /\ CacheInit(1)
TNew == Is("new") /\ cap' = (IF E.c = 0 THEN 1 ELSE E.c) /\ seen' = 0 /\ keyOf' = <<>> /\ lru' = <<>> /\ out' = {}
        /\ ret' = <<"new">> /\ Counts
TGet == Is("get") /\ Get(E.k) /\ ret'[3] = E.r /\ Counts
TAcq == Is("acq") /\ (IF E.hit THEN AcquireHit(E.k)
                      ELSE IF E.r <= seen /\ E.r \in Free THEN AcquireFree(E.k, E.r)
                      ELSE AcquireFresh(E.k) \/ AcquireEvict(E.k) \/ AcquireGrow(E.k))
        /\ ret'[3] = E.r /\ Counts
TPut == Is("put") /\ (IF E.o = 0 THEN PutRefused(E.k) ELSE Put(E.k, E.o)) /\ ret'[4] = E.ok /\ Counts
TErase == Is("erase") /\ Erase(E.k) /\ Counts
TNext == TNew \/ TGet \/ TAcq \/ TPut \/ TErase
TSpec == TInit /\ [][TNext]_<<vars, l>>
Inv == TypeOK /\ KeyUnique /\ OutHidden /\ LruExact /\ SizeBound
Accepted == PrintT(<<"TRACE-DIAMETER", TLCGet("stats").diameter>>)
=============================================================================
