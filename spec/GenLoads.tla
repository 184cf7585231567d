------------------------------ MODULE GenLoads ------------------------------
(* Loads under way at the same time (C15): every order in which the streams of *)
(* up to MaxLoads loads deliver their chunks. Each load is a reading of Streams *)
(* whose file is its chunks; its outcome is that of the load alone. An entry i  *)
(* of h: load i's next chunk is delivered. cut[i]: its stream ends before the   *)
(* last chunk.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLoads, MaxChunks, MaxTotal

VARIABLES n,      \* chunks of each load
          cut,    \* its stream ends early
          pos,    \* chunks delivered
          res,    \* "run" "ok" "err"
          h
vars == <<n, cut, pos, res, h>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Has(i) == IF cut[i] THEN n[i] - 1 ELSE n[i]

Init == /\ \E k \in 2..MaxLoads : n \in [1..k -> 1..MaxChunks] /\ cut \in [1..k -> BOOLEAN]
        /\ Sum(n) <= MaxTotal
        /\ Cardinality({ i \in DOMAIN n : cut[i] }) <= 1
        /\ \A i \in DOMAIN n : cut[i] => n[i] > 1
        /\ pos = [i \in DOMAIN n |-> 0] /\ res = [i \in DOMAIN n |-> "run"] /\ h = <<>>
Deliver(i) == /\ res[i] = "run" /\ pos[i] < Has(i)
              /\ pos' = [pos EXCEPT ![i] = @ + 1] /\ h' = Append(h, i)
              /\ UNCHANGED <<n, cut, res>>
\* a load ends as soon as it can: when it ends is not seen by the others
Finish(i) == /\ res[i] = "run" /\ pos[i] = Has(i)
             /\ res' = [res EXCEPT ![i] = IF pos[i] = n[i] THEN "ok" ELSE "err"]
             /\ UNCHANGED <<n, cut, pos, h>>
Ready == { i \in DOMAIN n : res[i] = "run" /\ pos[i] = Has(i) }
First(i) == \A j \in Ready : i <= j
Next == IF Ready # {} THEN \E i \in Ready : First(i) /\ Finish(i)
        ELSE IF \E i \in DOMAIN n : res[i] = "run" THEN \E i \in DOMAIN n : Deliver(i)
        ELSE h # <<>> /\ PrintT("GEN " \o ToJson([n |-> n, cut |-> cut, h |-> h])) /\ h' = <<>> /\ UNCHANGED <<n, cut, pos, res>>
Spec == Init /\ [][Next]_vars
\* each outcome depends on its own stream only
Alone == \A i \in DOMAIN n : res[i] # "run" => (res[i] = "ok" <=> ~cut[i])
=============================================================================
