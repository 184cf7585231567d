------------------------------ MODULE GenSched ------------------------------
(* Every order in which `procs' workers can begin and end `nb' batches handed  *)
(* out in order: histories of Pool seen at batch level. The driver steers the  *)
(* library's workers along them. k+1 stands for "batch k begins", -(k+1) for   *)
(* "its first row ends".                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxBatches, MaxProcs

VARIABLES nb, limit, todo, busy, done, ret, h
vars == <<nb, limit, todo, busy, done, ret, h>>
RP == INSTANCE RowPool

Init == /\ nb \in 2..MaxBatches /\ limit \in 2..MaxProcs /\ limit <= nb
        /\ todo = 0..(nb - 1) /\ busy = {} /\ done = {} /\ ret = FALSE /\ h = <<>>
First(k) == \A j \in todo : k <= j
Next == \/ \E k \in todo : First(k) /\ RP!Begin(k) /\ h' = Append(h, k + 1) /\ UNCHANGED nb
        \/ \E k \in busy : RP!End(k) /\ h' = Append(h, -(k + 1)) /\ UNCHANGED nb
        \/ RP!Return /\ UNCHANGED <<h, nb>> /\ PrintT("GEN " \o ToJson([w |-> limit, nb |-> nb, h |-> h]))
Spec == Init /\ [][Next]_vars
Refines == RP!PoolSpec
=============================================================================
