------------------------------ MODULE GenUtil -------------------------------
(* Enumerates inputs of the helpers: all short texts of sections, all short    *)
(* lists of spellings, all sets over the borders of words, short slices.       *)
EXTENDS Util, TLC, Json
CONSTANTS MaxLines, MaxToks, MaxSlice
Line(k, eq, v) == [k |-> k, eq |-> eq, v |-> v]
Lines == { Line("", FALSE, ""), Line("a", TRUE, "1"), Line("a", TRUE, "x=y"), Line("b", TRUE, " 2 3"), Line("b", FALSE, ""), Line("", TRUE, "4"), Line("a ", TRUE, "") }
Border == {0, 1, 7, 31, 32, 33, 63, 64, 95, 700}
Nums == {-9, 0, 1, 8, 1000000000}
Thrs == {-1, 0, 1, 8, 20}
VARIABLE c
Init == \/ \E n \in 0..MaxLines : \E d \in [1..n -> Lines], f \in BOOLEAN : c = [what |-> "section", doc |-> d, final |-> f]
        \/ \E n \in 1..MaxToks : \E d \in [1..n -> 1..Len(Spellings)] : c = [what |-> "list", toks |-> d]
        \/ \E S \in SUBSET Border : c = [what |-> "bits", set |-> S]
        \/ \E n, m \in 0..MaxSlice : Far(n, m) <= 1 /\ \E a \in [1..n -> Nums], b \in [1..m -> Nums], t \in Thrs : c = [what |-> "slices", a |-> a, b |-> b, thr |-> t]
Next == PrintT("GEN " \o ToJson(c)) /\ UNCHANGED c
Spec == Init /\ [][Next]_c
\* laws of the specification
Laws == CASE c.what = "bits" -> c.set # {} => Least(c.set) <= Greatest(c.set) /\ WordsOf(c.set) * 32 > Greatest(c.set) /\ (WordsOf(c.set) - 1) * 32 <= Greatest(c.set)
          [] c.what = "section" -> LET s == Section(c.doc) IN s.ok => Cardinality({ p[1] : p \in s.params }) = Cardinality(s.params) /\ s.rest < Len(c.doc)
          [] c.what = "list" -> (List("u32", c.toks).ok => List("int", c.toks).ok) /\ (List("i32", c.toks).ok => List("int", c.toks).ok) /\ (List("int", c.toks).ok => List("f64", c.toks).ok)
          [] OTHER -> Len(c.a) = Len(c.b) => Mismatched(c.a, c.b, c.thr) = Mismatched(c.b, c.a, c.thr)
=============================================================================
