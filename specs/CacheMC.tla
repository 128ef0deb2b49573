------------------------------ MODULE CacheMC ------------------------------
\* Bounded instance; prints one scenario per transition of the state graph.
EXTENDS Cache, TLC, Json
CONSTANTS MaxKey, MaxCap, InitCaps, Depth, Emit
VARIABLE hist
mvars == <<vars, hist>>
Keys == 1..MaxKey
MCInit == /\ \E c \in InitCaps : CacheInit(c) /\ hist = <<[op |-> "new", c |-> c]>>
Op(n, k, o) == hist' = Append(hist, [op |-> n, k |-> k, o |-> o])
MCNext == /\ Len(hist) < Depth
          /\ \E k \in Keys :
             \/ Get(k) /\ Op("get", k, 0)
             \/ Acquire(k) /\ Op("acq", k, 0)
             \/ \E o \in Objs : Put(k, o) /\ Op("put", k, o)
             \/ PutRefused(k) /\ Op("put", k, 0)
             \/ Erase(k) /\ Op("erase", k, 0)
MCSpec == MCInit /\ [][MCNext]_mvars
Bound == cap <= MaxCap
View == <<cap, seen, keyOf, lru, out>>
PrintScn == Emit => PrintT(<<"SCN", ToJson(hist')>>)
=============================================================================
