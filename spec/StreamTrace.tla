----------------------------- MODULE StreamTrace ----------------------------
(* Checks loads from cut, failing and oddly chunked streams against Streams.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
S == INSTANCE Streams WITH MaxSegs <- 0, MaxLen <- 0, segs <- 0, cut <- 0, fails <- 0, pos <- 0, buf <- 0, at <- 0, res <- 0

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, segs
vars == <<l, segs>>
Init == l \in { i + 1 : i \in { i \in 1..Len(T) : T[i].ev = "scn" } } /\ segs = <<>>
E == T[l]
Tag(x, t) == IF x THEN {t} ELSE {}

\* r: a run of cuts a..b with one outcome
RunTags(e, need, r) ==
  IF r.open > 0 THEN {"file left open"} ELSE IF r.res \in {"panic", "hang", "pending", "fatal"} THEN {"crash while loading"}
  ELSE IF r.res \in {"both", "none"} THEN {"a model and an error, or neither"}
  ELSE IF r.a < need THEN Tag(r.res # "err", CASE e.mode \in {"eof", "file"} -> "truncated model loaded" [] OTHER -> "model loaded from a failing stream")
  ELSE CASE e.mode \in {"err", "errdata", "unexpected", "once"} -> Tag(r.res = "ok" /\ ~r.same, "another model loaded")
         [] OTHER -> IF r.res # "ok" THEN {"complete model not loaded"} ELSE Tag(~r.same, "another model loaded")
\* loads under way at the same time, each judged by its own stream
LoadTags(e, x) == RunTags([mode |-> "eof"], S!Need(x.segs), x)
Bad(e) == IF e.res \in {"panic", "hang", "pending", "fatal"} THEN {"crash while loading"}
          ELSE IF e.ev = "loads" THEN UNION { LoadTags(e, e.loads[i]) : i \in 1..Len(e.loads) }
          ELSE LET need == S!Need(segs) IN UNION { RunTags(e, need, e.runs[i]) : i \in 1..Len(e.runs) }
Next == /\ l <= Len(T) /\ E.ev # "scn" /\ l' = l + 1
        /\ segs' = IF E.ev = "file" THEN E.segs ELSE segs
        /\ (IF E.ev = "race" THEN (IF E.count = 0 THEN TRUE ELSE PrintT(<<"REJECT", l, {"data race"}>>))
            ELSE IF E.ev \notin {"cuts", "loads"} THEN TRUE ELSE IF Bad(E) = {} THEN TRUE ELSE PrintT(<<"REJECT", l, Bad(E)>>))
Spec == Init /\ [][Next]_vars
LineView == l
=============================================================================
