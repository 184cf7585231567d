------------------------------ MODULE GenHist -------------------------------
(* The library as a state machine, with every short history of it (C09, C19):  *)
(* two models are loaded; then views are made of any handle, rows predicted    *)
(* through any handle, calls refused by any handle. The state is the set of    *)
(* handles; checked on the way: views keep what they have to, a handle never   *)
(* changes once it is made, what a handle answers depends on its model and     *)
(* transformation only. The driver replays every history on models of every    *)
(* kind, then asks all handles for their metadata and the same rows again.     *)
EXTENDS Leaves, Json

CONSTANTS Len1, Len2     \* steps of the histories over one model, over two

VARIABLES hs,            \* handles, in the order they were made
          hist,          \* what was done
          got            \* results seen: <<model, transformation, n>> -> value

M(k, nf, i) == [kind |-> "lg", nf |-> nf, k |-> k, avg |-> FALSE, base |-> <<>>, lr |-> 0, w |-> <<>>, sc |-> 8, tof |-> 0, tn |-> 0,
                trees |-> [j \in 1..(i * k) |-> [n |-> <<>>, v |-> <<8 * j>>]]]
Ms == <<M(1, 1, 2), M(3, 2, 1)>>
Ts == <<TLogistic, TSoftmax>>

Loaded(i, xf) == Handle(Ms[i], i, "lgtext", IF xf THEN Ts[i] ELSE TRaw)

Init == /\ hs \in { <<Loaded(1, x)>> : x \in BOOLEAN } \cup { <<Loaded(1, x), Loaded(2, ~x)>> : x \in BOOLEAN }
        /\ hist = <<>>
        /\ got = [x \in {} |-> 0]
Models0 == IF \E i \in 1..Len(hs) : hs[i].src = 2 THEN 2 ELSE 1
Limit == IF Models0 = 2 THEN Len2 ELSE Len1

\* what a handle answers: of the model and transformation, not of the handle
Answer(h, n) == <<h.t, IF h.t = TLeaf THEN ReachRow(h.m, <<0, 0>>) ELSE RawRow(h.m, <<0, 0>>, Eff(h.m, n))>>

View(i, kind) == /\ hs' = Append(hs, IF kind = "raw" THEN RawView(hs[i]) ELSE LeafView(hs[i]))
                 /\ hist' = Append(hist, <<kind, i>>)
                 /\ UNCHANGED got
Pred(i, how) == LET n == IF how = "one" /\ hs[i].t # TLeaf THEN 1 ELSE 0
                IN /\ hist' = Append(hist, <<how, i>>)
                   /\ got' = (<<hs[i].src, hs[i].t, Eff(hs[i].m, n)>> :> Answer(hs[i], n)) @@ got
                   /\ UNCHANGED hs
Bad(i) == hist' = Append(hist, <<"bad", i>>) /\ UNCHANGED <<hs, got>>

Step == \E i \in 1..Len(hs) :
          \/ \E k \in {"raw", "leaf"} : View(i, k)
          \/ \E how \in {"one", "all"} : Pred(i, how)
          \/ Bad(i)
Next == /\ Len(hist) < Limit
        /\ Step
        /\ PrintT("GEN " \o ToJson([models |-> Models0, xf |-> hs[1].t # TRaw, steps |-> hist']))
Spec == Init /\ [][Next]_<<hs, hist, got>>

\* a handle never changes, results once seen neither
Frozen == [][ /\ SubSeq(hs', 1, Len(hs)) = hs
              /\ \A k \in DOMAIN got : got'[k] = got[k] ]_<<hs, hist, got>>
\* all handles of a model agree about it
Kept == \A i, j \in 1..Len(hs) : hs[i].src = hs[j].src =>
          LET a == Meta(hs[i]) b == Meta(hs[j])
          IN /\ a.name = b.name /\ a.nf = b.nf /\ a.ne = b.ne /\ a.nrg = b.nrg /\ a.nl = b.nl
             /\ (hs[i].t = hs[j].t <=> a = b)
             /\ a.nog = (IF hs[i].t = TLeaf THEN a.nrg * a.ne ELSE a.nrg)
\* only the models' own transformation, raw scores and leaves are ever applied
Applied == \A i \in 1..Len(hs) : hs[i].t \in {TRaw, TLeaf, Ts[hs[i].src]}
=============================================================================
