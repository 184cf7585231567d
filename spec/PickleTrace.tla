----------------------------- MODULE PickleTrace ----------------------------
(* Checks recorded runs of the pickle decoder against PickleVM.                *)
EXTENDS PickleVM, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l \in { i + 1 : i \in { i \in 1..Len(T) : T[i].ev = "scn" } }
E == T[l]
Crash(e) == e.res \in {"panic", "hang", "pending", "fatal"}
Bad(e) ==
  IF Crash(e) THEN {"crash while decoding"}
  ELSE LET s == Exec(e.prog)
       IN CASE s.st = "any" -> {}
            [] s.st = "err" -> IF e.res = "err" THEN {} ELSE {"malformed pickle decoded"}
            [] s.lax /\ e.res = "err" -> {}
            [] OTHER -> IF e.res # "ok" THEN {"pickle not decoded"}
                        ELSE IF SameGraph(s.heap, s.res, e.heap, e.root) THEN {} ELSE {"another object decoded"}
Next == /\ l <= Len(T) /\ E.ev # "scn" /\ l' = l + 1
        /\ (IF E.ev # "pickle" THEN TRUE ELSE IF Bad(E) = {} THEN TRUE ELSE PrintT(<<"REJECT", l, Bad(E)>>))
Spec == Init /\ [][Next]_l
=============================================================================
