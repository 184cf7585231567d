----------------------------- MODULE GenSplits ------------------------------
(* The decision tables of single splits (C01, C02, C04, C06): every kind of    *)
(* split x missing type x default side x threshold (category set) x what hangs *)
(* below it, with every value worth trying. The driver writes each as a model, *)
(* predicts all rows; Trace compares with Models. Checks on the way that the   *)
(* splits of Models are what they are meant to be: monotone in the value, etc. *)
EXTENDS Models, Json, TLC, IOUtils

Prop == IOEnv.PROP
CONSTANT Full         \* all combinations
VARIABLE c

Q1(q) == { Code(q, e) : e \in -1..1 }
Near0 == -3..3
Big == UNION { { 8 * q, -8 * q } : q \in {Q1e300, Q2p31, Q2p40} }
Thresholds(kind) == Near0 \cup Q1(4) \cup Q1(-4) \cup Q1(1) \cup Big \cup (IF kind = "xg" THEN {8 * QInf, -8 * QInf} ELSE {})
Around(t) == { v \in (t - 2)..(t + 2) : QOf(v) = QOf(t) /\ EOf(v) \in -3..3 /\ (QOf(t) = QInf => v <= t) /\ (QOf(t) = -QInf => v >= t) }
Values(kind, t) == Near0 \cup Around(t) \cup Q1(4) \cup Q1(-4) \cup Big
                   \cup {8 * QInf, -8 * QInf, 8 * Q2p32, -8 * Q2p32, 8 * Q2p31m, 8, -8, 24, -24}
                   \cup (IF kind = "sk" THEN {} ELSE {NaN})

\* what hangs below: bit 0 a node on the left, bit 1 a node on the right
Below2 == 0..3
Nodes(nd, below, sub(_)) ==
  LET left == below % 2 = 1 right == below >= 2
      root == [nd EXCEPT !.l = IF left THEN 1 ELSE -1, !.r = IF ~right THEN -2 ELSE IF left THEN 2 ELSE 1]
  IN <<root>>
     \o (IF left THEN <<[sub(1) EXCEPT !.l = -1, !.r = -3]>> ELSE <<>>)
     \o (IF right THEN <<[sub(2) EXCEPT !.l = IF left THEN -4 ELSE -3, !.r = -2]>> ELSE <<>>)
Num(t, miss, dl, f) == [f |-> f, k |-> "n", t |-> t, set |-> <<>>, miss |-> miss, dl |-> dl, l |-> -1, r |-> -2, v |-> 0]
Cat(s, miss, dl, f) == [f |-> f, k |-> "c", t |-> 0, set |-> s, miss |-> miss, dl |-> dl, l |-> -1, r |-> -2, v |-> 0]

NumCases(kind) ==
  { [kind |-> kind, n |-> Nodes(Num(t, miss, dl, 0), b, LAMBDA i : Num(0, 0, FALSE, 1)), ws |-> IF b = 0 THEN <<0>> ELSE <<-8, 8>>,
     vals |-> Values(kind, t)]
    : <<t, miss, dl, b>> \in { x \in Thresholds(kind) \X (IF kind = "lg" THEN 0..2 ELSE {0}) \X (IF kind = "sk" THEN {FALSE} ELSE BOOLEAN) \X Below2
                             : Full \/ (x[1] \in Near0 \/ x[4] = (x[1] + x[2]) % 4) } }

Cats == {0, 1, 31, 32, 33, 63, 64}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Ascending(S \ {x})
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x + SumOf(S \ {x})
CatValues == UNION { { Code(4 * k, 0), Code(4 * k, -1), Code(4 * k, 1), Code(4 * k + 2, 0), Code(-4 * k, 0), Code(4 * k + 128, 0) } : k \in Cats \cup {2, 30, 34, 62, 65} }
             \cup {8 * Q2p31m, 8 * Q2p31, 8 * Q2p32, 8 * Q2p40, 8 * Q1e300, -8 * Q2p31, -8 * Q2p32, 8 * QInf, -8 * QInf, NaN, -8, -1}
\* every single category of the first words, runs, words but one category
MoreSets == { {k} : k \in 0..69 } \cup { 0..k : k \in {2, 3, 15, 16, 30, 31, 32, 62, 63, 64, 69} } \cup { (0..31) \ {k} : k \in 0..31 } \cup { {k, k + 32} : k \in 0..31 }
MoreValues == CatValues \cup { Code(4 * k, 0) : k \in 0..70 }
MoreCases == { [kind |-> "lg", n |-> Nodes(Cat(Ascending(s), 0, FALSE, 0), 0, LAMBDA i : Cat(<<0>>, 0, FALSE, 1)), ws |-> <<0>>, vals |-> MoreValues] : s \in MoreSets }
CatCases ==
  { [kind |-> "lg", n |-> Nodes(Cat(Ascending(s), miss, dl, 0), b, LAMBDA i : Cat(IF i = 1 THEN <<1, 40>> ELSE IF SumOf(s) % 2 = 0 THEN <<0>> ELSE <<1, 2>>, 0, FALSE, 1)),
     ws |-> IF b = 0 THEN <<0>> ELSE <<0, 32, 1280>>, vals |-> CatValues]
    : <<s, miss, dl, b>> \in { x \in (SUBSET Cats \ {{}}) \X (0..2) \X BOOLEAN \X Below2
                             : (x[2] = 0 => x[3] = FALSE) /\ (Full \/ (x[4] = (SumOf(x[1]) \div 2) % 4 /\ x[2] = SumOf(x[1]) % 3 /\ x[3] = (x[2] = 2))) } }

Cases == CASE Prop = "C01" -> NumCases("lg") [] Prop = "C02" -> CatCases \cup MoreCases [] Prop = "C04" -> NumCases("xg") [] Prop = "C06" -> NumCases("sk")

Init == c \in Cases /\ PrintT("GEN " \o ToJson([c EXCEPT !.vals = Ascending(@)]))
Next == UNCHANGED c

Root == c.n[1]
Side(v) == GoLeft(c.kind, Root, v)
\* LGTreeOK, and what a split is for: below its threshold left, above right, wherever nothing is missing
Sane ==
  /\ LGTreeOK([n |-> c.n, v |-> [i \in 1..(Len(c.n) + 1) |-> 0]], 2)
  /\ Root.k = "n" =>
       /\ \A v \in c.vals : ~IsNaN(v) /\ ~(c.kind = "lg" /\ LGMissing(Root, v)) =>
            Side(v) = IF c.kind = "xg" THEN v < Root.t ELSE v <= Root.t
       /\ \A u, v \in c.vals : ~IsNaN(u) /\ ~IsNaN(v) /\ u < v /\ (c.kind = "lg" => ~LGMissing(Root, u) /\ ~LGMissing(Root, v)) => (Side(v) => Side(u))
       /\ (c.kind = "lg" /\ Root.miss = 0) => (Side(NaN) <=> Side(0))
       /\ (c.kind = "lg" /\ Root.miss = 1) => (Side(NaN) <=> Root.dl) /\ (Side(0) <=> Root.dl) /\ (Side(-2) <=> Root.dl)
       /\ c.kind = "xg" => (Side(NaN) <=> Root.dl)
  /\ Root.k = "c" =>
       /\ \A k \in Cats \cup 0..70 : Side(Code(4 * k, 0)) <=> k \in RangeOf(Root.set)
       /\ ~Side(NaN) /\ ~Side(-8 * Q2p32) /\ ~Side(8 * Q2p32) /\ ~Side(8 * QInf)
       /\ Side(-1) <=> 0 \in RangeOf(Root.set)       \* -1e-36 truncates to 0
=============================================================================
