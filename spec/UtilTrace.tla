----------------------------- MODULE UtilTrace ------------------------------
(* Checks recorded calls of the helpers against Util.                          *)
EXTENDS Util, TLC, Json, IOUtils

T_ == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l \in { i + 1 : i \in { i \in 1..Len(T_) : T_[i].ev = "scn" } }
E == T_[l]
Tag(x, t) == IF x THEN {t} ELSE {}
Crash(e) == e.res \in {"panic", "hang", "pending", "fatal"}
Range(s) == { s[i] : i \in 1..Len(s) }

SectionTags(e) ==
  LET s == Section(e.doc)
  IN IF e.fail THEN Tag(e.res # "err", "failing stream read without error")
     ELSE IF Unsaid(e.doc, e.final) THEN {}
     ELSE IF ~s.ok THEN Tag(e.res # "err", "section read where there is none")
     ELSE IF e.res # "ok" THEN {"section not read"}
     ELSE Tag(Range(e.params) # s.params \/ Len(e.params) # Cardinality(s.params), "another section read")
          \cup Tag(s.rest \notin Range(e.rest), "the stream is left at another place")
As(got, want, t) == Tag(got.ok # want.ok \/ (want.ok /\ got.v # want.v), t)
ListTags(e) ==
  As(e.int, Number("int", e.toks), "integer") \cup As(e.u32, List("u32", e.toks), "list of uint32")
  \cup As(e.i32, List("i32", e.toks), "list of int32") \cup As(e.f64, List("f64", e.toks), "list of float64")
  \cup Tag(e.strs # [i \in 1..Len(e.toks) |-> Spellings[e.toks[i]].text], "list of strings")
  \cup Tag(~e.has, "string, Contains or Compare") \cup Tag(~e.absent, "a field that is not there")
BitTags(e) ==
  LET S == Range(e.set)
      got == UNION { { 32 * w[1] + w[2][i] : i \in 1..Len(w[2]) } : w \in Range(e.words) }
  IN Tag(got # S \/ e.n # WordsOf(S), "bit set constructed")
     \cup Tag(e.count # Cardinality(S), "number of set bits")
     \cup Tag(e.first # (IF S = {} THEN -1 ELSE Least(S)), "first set bit")
     \cup Tag(\E i \in 1..Len(e.finds) : e.finds[i][2] # (IF e.finds[i][1] \in { x \in S : x < 32 } THEN 1 ELSE 0), "bit found")
CmpTags(e) ==
  LET same == Len(e.a) = Len(e.b)
      m == IF same THEN Mismatched(e.a, e.b, e.thr) ELSE 0
  IN Tag(e.equal # (same /\ m = 0), "slices almost equal")
     \cup Tag(e.cok # same \/ (same /\ e.count # m), "number of mismatches")
     \cup Tag(\E i \in 1..Len(e.each) : e.each[i] # ~Exceeds(e.a[i], e.b[i], e.thr), "numbers almost equal")
Ranks(o) == [i \in 1..Len(o) |-> Cardinality({ j \in 1..Len(o) : o[j] < o[i] })]
\* far apart, the lesser ones underflow to zero together
SoftTags(e) ==
  Tag(~e.outside, "written beside the place") \cup Tag(~e.range \/ ~e.one, "no probabilities")
  \cup Tag(\E i, j \in 1..Len(e.order) : (e.order[i] = e.order[j] /\ e.ranks[i] # e.ranks[j]) \/ (e.order[i] < e.order[j] /\ e.ranks[i] > e.ranks[j]),
           "not in the order of the values")
  \cup Tag(\E i \in 1..Len(e.order) : Ranks(e.order)[i] = Greatest(Range(Ranks(e.order))) /\ e.ranks[i] # Ranks(e.order)[i], "the greatest is not the greatest")
Bad(e) ==
  IF Crash(e) THEN {"crash"}
  ELSE CASE e.ev = "usec" -> SectionTags(e) [] e.ev = "ulist" -> ListTags(e) [] e.ev = "ubits" -> BitTags(e) [] e.ev = "ucmp" -> CmpTags(e)
         [] e.ev = "usoft" -> SoftTags(e) [] e.ev = "ubytes" -> Tag(e.got # (IF e.little THEN [i \in 1..8 |-> e.bytes[9 - i]] ELSE e.bytes), "float of bytes")
         [] e.ev = "umin" -> Tag(e.got # (IF e.a < e.b THEN e.a ELSE e.b), "minimum")
         [] e.ev = "usig" -> Tag(e.got # e.want, "sigmoid in place")
         [] OTHER -> {}
Events == {"usec", "ulist", "ubits", "ucmp", "ubytes", "umin", "usig", "usoft"}
Next == /\ l <= Len(T_) /\ E.ev # "scn" /\ l' = l + 1
        /\ (IF E.ev \notin Events THEN TRUE ELSE LET b == Bad(E) \cup (IF E.pure THEN {} ELSE {"arguments changed"})
                                                  IN IF b = {} THEN TRUE ELSE PrintT(<<"REJECT", l, b>>))
Spec == Init /\ [][Next]_l
=============================================================================
