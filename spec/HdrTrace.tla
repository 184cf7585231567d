------------------------------ MODULE HdrTrace ------------------------------
(* Checks what the loaders did with enumerated headers against Headers.        *)
EXTENDS Headers, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l \in { i + 1 : i \in { i \in 1..Len(T) : T[i].ev = "scn" } }
E == T[l]
Tag(x, t) == IF x THEN {t} ELSE {}
Crash(e) == e.res \in {"panic", "hang", "pending", "fatal"}
Bad(e) ==
  LET v == Verdict(e.c)
  IN IF NoObligation(e.c) THEN {}
     ELSE IF Crash(e) THEN {"crash while loading"}
     ELSE IF e.res = "both" THEN {"a model and an error"}
     ELSE IF e.res = "none" THEN {"neither model nor error"}
     ELSE IF ~v.ok THEN Tag(e.res # "err", "unsupported or inconsistent model loaded")
     ELSE IF e.res # "ok" THEN {"supported model not loaded"}
     ELSE Tag(e.nrg # v.k, "NRawOutputGroups") \cup Tag(e.ne # v.ne, "NEstimators")
          \cup Tag(e.nf # v.nf, "NFeatures") \cup Tag(e.tt # v.t, "transformation") \cup Tag(e.nog # v.k \/ e.tog # v.k, "NOutputGroups")
Next == /\ l <= Len(T) /\ E.ev # "scn" /\ l' = l + 1
        /\ (IF E.ev # "hdr" THEN TRUE ELSE IF Bad(E) = {} THEN TRUE ELSE PrintT(<<"REJECT", l, Bad(E)>>))
Spec == Init /\ [][Next]_l
=============================================================================
