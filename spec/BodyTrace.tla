----------------------------- MODULE BodyTrace ------------------------------
(* Checks what became of files with deviating trees against Bodies.            *)
EXTENDS Bodies, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l \in { i + 1 : i \in { i \in 1..Len(T) : T[i].ev = "scn" } }
E == T[l]
Ds(e) == { e.ds[i] : i \in 1..Len(e.ds) }
Tag(c, t) == IF c THEN {t} ELSE {}
\* e.same: the model predicts as the one of the intact file
Bad(e) ==
  IF e.ev # "body" THEN {}
  ELSE IF e.res \notin {"ok", "err"} THEN {"crash while loading"}
  ELSE LET v == Verdict(e.fmt, Ds(e))
       IN Tag(v = "refuse" /\ e.res = "ok", "tree that the format does not define was loaded")
          \cup Tag(v = "load" /\ e.res = "err", "well-defined tree was refused")
          \cup Tag(v # "refuse" /\ e.res = "ok" /\ ~e.same, "needless field changed the scores")
Next == /\ l <= Len(T) /\ E.ev # "scn" /\ l' = l + 1
        /\ (IF Bad(E) = {} THEN TRUE ELSE PrintT(<<"REJECT", l, Bad(E)>>))
Spec == Init /\ [][Next]_l
=============================================================================
