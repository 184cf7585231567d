---------------------------- MODULE DamageTrace -----------------------------
(* Checks what became of damaged files against Damage.                         *)
EXTENDS Damage, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l \in { i + 1 : i \in { i \in 1..Len(T) : T[i].ev = "scn" } }
E == T[l]
How(res) ==
  CASE res = "ok" -> {} [] res = "err" -> {}
    [] res = "panic" -> {"panic while loading"}
    [] res = "use" -> {"loaded model cannot predict"}
    [] res = "hang" -> {"never ends"}
    [] res \in {"fatal", "pending"} -> {"process died"}
    [] res = "memory" -> {"absurd allocation"}
    [] res = "none" -> {"neither model nor error"}
    [] res = "both" -> {"a model and an error"}
Expect(e, v) == IF v = "refuse" /\ e.res = "ok" THEN {"damaged model loaded"}
                ELSE IF v = "load" /\ e.res = "err" THEN {"sound model not loaded"} ELSE {}
Bad(e) ==
  CASE e.ev = "refs" -> How(e.res) \cup Expect(e, Refs(e.fmt, e.l, e.r))
    [] e.ev = "defect" -> How(e.res) \cup Expect(e, IF e.what \in Refused(e.fmt) THEN "refuse" ELSE "free")
    [] e.ev = "sweep" -> How(e.res) \cup UNION { How(e.bad[i].res) : i \in 1..Len(e.bad) }
    [] OTHER -> {}
Next == /\ l <= Len(T) /\ E.ev # "scn" /\ l' = l + 1
        /\ (IF Bad(E) = {} THEN TRUE ELSE PrintT(<<"REJECT", l, Bad(E)>>))
Spec == Init /\ [][Next]_l
=============================================================================
