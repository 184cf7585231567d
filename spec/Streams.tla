------------------------------ MODULE Streams -------------------------------
(* Loading from a stream (C15). A file is a sequence of segments; a model needs *)
(* the bytes up to the end of the last required segment. The stream delivers   *)
(* bytes in chunks and ends, or fails, at `cut'. The loader reads segment by   *)
(* segment. Whatever the chunks, it loads exactly when cut >= Need.            *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE EndOf(_, _)
EndOf(segs, i) == IF i = 0 THEN 0 ELSE EndOf(segs, i - 1) + segs[i].len
Need(segs) == LET req == { i \in 1..Len(segs) : segs[i].req /\ segs[i].len > 0 }
              IN IF req = {} THEN 0 ELSE EndOf(segs, CHOOSE i \in req : \A j \in req : j <= i)
Total(segs) == EndOf(segs, Len(segs))

CONSTANTS MaxSegs, MaxLen
VARIABLES segs, cut, fails,   \* the stream: where it ends, and whether it ends by failing
          pos,                \* bytes delivered
          buf,                \* of them, not yet consumed by the loader
          at,                 \* segment the loader wants next
          res                 \* "run" "ok" "err"
vars == <<segs, cut, fails, pos, buf, at, res>>

Init == /\ \E n \in 0..MaxSegs : segs \in [1..n -> [len : 0..MaxLen, req : BOOLEAN]]
        /\ cut \in 0..Total(segs) /\ fails \in BOOLEAN
        /\ pos = 0 /\ buf = 0 /\ at = 1 /\ res = "run"
\* the stream delivers some bytes (or none: a reader may)
Deliver == /\ res = "run" /\ pos < cut
           /\ \E k \in 0..(cut - pos) : pos' = pos + k /\ buf' = buf + k
           /\ UNCHANGED <<segs, cut, fails, at, res>>
\* the last required segment is in: the rest does not matter
LastReq == IF { i \in 1..Len(segs) : segs[i].req /\ segs[i].len > 0 } = {} THEN 0
           ELSE CHOOSE i \in 1..Len(segs) : segs[i].req /\ segs[i].len > 0 /\ \A j \in (i + 1)..Len(segs) : ~(segs[j].req /\ segs[j].len > 0)
Consume == /\ res = "run" /\ at <= LastReq /\ buf >= segs[at].len
           /\ buf' = buf - segs[at].len /\ at' = at + 1
           /\ UNCHANGED <<segs, cut, fails, pos, res>>
Finish == /\ res = "run" /\ at > LastReq
          /\ res' = "ok" /\ UNCHANGED <<segs, cut, fails, pos, buf, at>>
\* nothing more will come
Fail == /\ res = "run" /\ pos = cut /\ at <= LastReq /\ buf < segs[at].len
        /\ res' = "err" /\ UNCHANGED <<segs, cut, fails, pos, buf, at>>
Next == Deliver \/ Consume \/ Finish \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Consume) /\ WF_vars(Finish) /\ WF_vars(Fail) /\ WF_vars(Deliver /\ pos' > pos)

Outcome == res # "run" => (res = "ok" <=> cut >= Need(segs))
Ends == <>(res # "run")
=============================================================================
