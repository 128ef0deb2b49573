----------------------------- MODULE CollisionMC -----------------------------
\* Bounded histories of setting and looking; prints one per transition.
EXTENDS CollisionCache, TLC, Json
CONSTANTS Emit
VARIABLE hist
Op(n, k, x) == hist' = Append(hist, [op |-> n, n |-> k, s |-> x])
MCInit == CInit /\ hist = <<>>
MCNext == \/ Look /\ shown = Nothing /\ Op("look", 0, 0)
          \/ \E x \in States1 : Set1(x) /\ Op("set", 1, x)
          \/ \E x \in States2 : Set2(x) /\ Op("set", 2, x)
MCSpec == MCInit /\ [][MCNext]_<<cvars, hist>>
View == cvars
PrintScn == Emit => (shown' # Nothing => PrintT(<<"SCN", ToJson([h |-> hist'])>>))
=============================================================================
