------------------------------ MODULE RowPool -------------------------------
(* What a batch prediction promises, however it is implemented (C08): rows are *)
(* evaluated once each, at most `limit' at a time, and the call returns when   *)
(* all of them are done.                                                       *)
EXTENDS Integers, FiniteSets

VARIABLES todo,   \* rows not begun
          busy,   \* rows begun, not ended
          done,   \* rows ended
          limit,  \* how many may be evaluated at a time
          ret     \* the call has returned

Begin(r) == /\ ~ret /\ r \in todo /\ Cardinality(busy) < limit
            /\ todo' = todo \ {r} /\ busy' = busy \cup {r}
            /\ UNCHANGED <<done, limit, ret>>
End(r)   == /\ ~ret /\ r \in busy
            /\ busy' = busy \ {r} /\ done' = done \cup {r}
            /\ UNCHANGED <<todo, limit, ret>>
Return   == /\ ~ret /\ todo = {} /\ busy = {}
            /\ ret' = TRUE /\ UNCHANGED <<todo, busy, done, limit>>

PoolInit == busy = {} /\ done = {} /\ ret = FALSE /\ limit >= 1
PoolNext == (\E r \in todo : Begin(r)) \/ (\E r \in busy : End(r)) \/ Return
PoolSpec == PoolInit /\ [][PoolNext]_<<todo, busy, done, limit, ret>>

\* the number of rows that a call may evaluate at a time
LimitOf(threads, procs) == IF threads \in {0, 1} THEN 1
                           ELSE IF threads < 1 \/ threads > procs THEN procs ELSE threads
=============================================================================
