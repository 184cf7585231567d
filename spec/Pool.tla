-------------------------------- MODULE Pool --------------------------------
(* The worker pool of PredictDense and PredictCSR: a feeder hands batches of   *)
(* rows to workers over an unbuffered channel, closes it and waits for the     *)
(* workers. Refines RowPool; terminates; leaves no worker behind.              *)
EXTENDS Integers, FiniteSets

CONSTANTS MaxRows, Batch, MaxThreads, MaxProcs

VARIABLES rows, threads, procs,   \* the call (chosen at the start)
          spawned,                \* workers started so far
          feed,                   \* next batch to hand out
          closed, ret,
          pc,                     \* worker -> "unborn" "recv" "run" "eval" "exit" "gone"
          at, end,                \* worker -> row it is at, end of its batch
          todo, busy, done
vars == <<rows, threads, procs, spawned, feed, closed, ret, pc, at, end, todo, busy, done>>

MinOf(a, b) == IF a < b THEN a ELSE b
RP == INSTANCE RowPool WITH limit <- (IF threads \in {0, 1} THEN 1 ELSE IF threads < 1 \/ threads > procs THEN procs ELSE threads)

Inline == rows <= Batch \/ threads \in {0, 1}
NBatches == (rows + Batch - 1) \div Batch
\* the number of workers, as the library works it out
Workers == IF Inline THEN 1
           ELSE MinOf(IF threads > procs \/ threads < 1 THEN procs ELSE threads, NBatches)
W == 1..MaxProcs

Init == /\ rows \in 0..MaxRows /\ threads \in -1..MaxThreads /\ procs \in 1..MaxProcs
        /\ spawned = (IF Inline THEN 1 ELSE 0) /\ feed = 0
        /\ closed = Inline /\ ret = FALSE
        \* without a pool the caller itself is the one worker, with all rows as its batch
        /\ pc = [w \in W |-> IF Inline /\ w = 1 THEN "run" ELSE "unborn"]
        /\ at = [w \in W |-> 0] /\ end = [w \in W |-> IF Inline /\ w = 1 THEN rows ELSE 0]
        /\ todo = 0..(rows - 1) /\ busy = {} /\ done = {}

call == <<rows, threads, procs>>
Spawn == /\ spawned < Workers
         /\ spawned' = spawned + 1 /\ pc' = [pc EXCEPT ![spawned + 1] = "recv"]
         /\ UNCHANGED <<call, feed, closed, ret, at, end, todo, busy, done>>
Send(w) == /\ spawned = Workers /\ ~closed /\ feed < NBatches /\ pc[w] = "recv"
           /\ feed' = feed + 1 /\ pc' = [pc EXCEPT ![w] = "run"]
           /\ at' = [at EXCEPT ![w] = feed * Batch] /\ end' = [end EXCEPT ![w] = MinOf((feed + 1) * Batch, rows)]
           /\ UNCHANGED <<call, spawned, closed, ret, todo, busy, done>>
Close == /\ spawned = Workers /\ ~closed /\ feed = NBatches
         /\ closed' = TRUE /\ UNCHANGED <<call, spawned, feed, ret, pc, at, end, todo, busy, done>>
BeginRow(w) == /\ pc[w] = "run" /\ at[w] < end[w]
               /\ pc' = [pc EXCEPT ![w] = "eval"] /\ todo' = todo \ {at[w]} /\ busy' = busy \cup {at[w]}
               /\ UNCHANGED <<call, spawned, feed, closed, ret, at, end, done>>
EndRow(w) == /\ pc[w] = "eval"
             /\ pc' = [pc EXCEPT ![w] = "run"] /\ at' = [at EXCEPT ![w] = @ + 1]
             /\ busy' = busy \ {at[w]} /\ done' = done \cup {at[w]}
             /\ UNCHANGED <<call, spawned, feed, closed, ret, end, todo>>
Next1(w) == /\ pc[w] = "run" /\ at[w] = end[w]
            /\ pc' = [pc EXCEPT ![w] = IF Inline THEN "exit" ELSE "recv"]
            /\ UNCHANGED <<call, spawned, feed, closed, ret, at, end, todo, busy, done>>
Closed(w) == /\ pc[w] = "recv" /\ closed
             /\ pc' = [pc EXCEPT ![w] = "exit"]
             /\ UNCHANGED <<call, spawned, feed, closed, ret, at, end, todo, busy, done>>
Done(w) == /\ pc[w] = "exit"
           /\ pc' = [pc EXCEPT ![w] = "gone"]
           /\ UNCHANGED <<call, spawned, feed, closed, ret, at, end, todo, busy, done>>
Wait == /\ closed /\ ~ret /\ \A w \in W : pc[w] \in {"unborn", "gone"}
        /\ ret' = TRUE /\ UNCHANGED <<call, spawned, feed, closed, pc, at, end, todo, busy, done>>
Over == ret /\ UNCHANGED vars

Next == Spawn \/ Close \/ Wait \/ Over
        \/ \E w \in W : Send(w) \/ BeginRow(w) \/ EndRow(w) \/ Next1(w) \/ Closed(w) \/ Done(w)
\* the scheduler is fair to every goroutine
Fair == /\ WF_vars(Spawn) /\ WF_vars(Close) /\ WF_vars(Wait)
        /\ \A w \in W : WF_vars(Send(w) \/ BeginRow(w) \/ EndRow(w) \/ Next1(w) \/ Closed(w) \/ Done(w))
Spec == Init /\ [][Next]_vars /\ Fair

Partition == /\ todo \cup busy \cup done = 0..(rows - 1)
             /\ todo \cap busy = {} /\ busy \cap done = {} /\ todo \cap done = {}
\* two workers never hold the same row: their output cells are disjoint
Disjoint == \A v, w \in W : v # w /\ pc[v] \in {"run", "eval"} /\ pc[w] \in {"run", "eval"}
              => \A x \in at[v]..(end[v] - 1), y \in at[w]..(end[w] - 1) : x # y
NoneLeft == ret => \A w \in W : pc[w] \in {"unborn", "gone"}
Refines == RP!PoolSpec
Returns == <>ret
=============================================================================
