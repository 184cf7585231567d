----------------------------- MODULE PoolTrace ------------------------------
(* Checks recorded batch predictions against RowPool: the hook in the library  *)
(* tells when the evaluation of a row begins and ends, rows being recognised   *)
(* by their values at both moments.                                            *)
EXTENDS RowPool, Sequences, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<l, todo, busy, done, limit, ret>>

Init == /\ l \in { i + 1 : i \in { i \in 1..Len(T) : T[i].ev = "scn" } }
        /\ todo = {} /\ busy = {} /\ done = {} /\ limit = 1 /\ ret = TRUE
E == T[l]
Here == l <= Len(T) /\ E.ev # "scn"
Say(bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", l, bad>>)
Tag(c, t) == IF c THEN {t} ELSE {}

Call == /\ E.ev = "pcall"
        /\ todo' = 0..(E.rows - 1) /\ busy' = {} /\ done' = {} /\ ret' = FALSE
        /\ limit' = LimitOf(E.th, E.procs)
\* an event that RowPool does not allow is reported and followed as far as it makes sense
BeginStep == /\ E.ev = "pbegin"
             /\ IF ~ret /\ E.row \in todo /\ Cardinality(busy) < limit THEN Begin(E.row)
                ELSE /\ Say(Tag(ret, "row evaluated after the call returned")
                            \cup Tag(E.row = -1, "evaluated on values of no row")
                            \cup Tag(E.row # -1 /\ E.row \notin todo, "row evaluated twice")
                            \cup Tag(Cardinality(busy) >= limit, "too many rows at a time"))
                     /\ todo' = todo \ {E.row} /\ busy' = busy \cup ({E.row} \ {-1}) /\ UNCHANGED <<done, limit, ret>>
EndStep == /\ E.ev = "pend"
           /\ IF ~ret /\ E.row \in busy THEN End(E.row)
              ELSE /\ Say({IF ret THEN "row still evaluated when the call returned" ELSE "values changed while the row was evaluated"})
                   /\ busy' = busy \ {E.row} /\ done' = done \cup ({E.row} \ {-1}) /\ UNCHANGED <<todo, limit, ret>>
\* a call without any event was not observed
Crash(e) == e.res \in {"panic", "hang", "pending", "fatal"}
RetStep == /\ E.ev = "pret"
           /\ Say(IF Crash(E) THEN {IF E.res = "hang" THEN "the call does not return" ELSE "crash in a batch prediction"}
                  ELSE Tag(E.res # "ok", "legal call refused")
                       \cup Tag(E.hooked /\ E.res = "ok" /\ (todo # {} \/ busy # {}), "the call returned before all rows were evaluated")
                       \cup Tag(Len(E.wrong) > 0, "row differs from its single evaluation"))
           /\ ret' = TRUE /\ UNCHANGED <<todo, busy, done, limit>>
LeftStep == /\ E.ev = "pleft"
            /\ Say(Tag(E.left > 0, "goroutines left behind"))
            /\ UNCHANGED <<todo, busy, done, limit, ret>>
RaceStep == /\ E.ev = "race"
            /\ Say(Tag(E.count > 0, "data race"))
            /\ UNCHANGED <<todo, busy, done, limit, ret>>
Other == /\ E.ev \in {"src", "load", "note", "view", "pred", "meta"}
         /\ UNCHANGED <<todo, busy, done, limit, ret>>
Next == Here /\ l' = l + 1 /\ (Call \/ BeginStep \/ EndStep \/ RetStep \/ LeftStep \/ RaceStep \/ Other)
Spec == Init /\ [][Next]_vars
PoolView == l
=============================================================================
