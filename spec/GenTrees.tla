------------------------------ MODULE GenTrees ------------------------------
(* Every tree shape of few splits in every numbering of its nodes and leaves.  *)
(* Split i looks at feature i. The driver writes each as a model and predicts  *)
(* all rows that take each split either way.                                   *)
EXTENDS Models, TreeShapes, Json

CONSTANTS NLG, NX      \* splits of LightGBM trees, of the others
VARIABLE c

LGCases == UNION { { [fmt |-> "lg", n |-> n, t |-> t] : t \in LGTrees(n) } : n \in 0..NLG }
XCases == UNION { { [fmt |-> "x", n |-> n, t |-> t] : t \in XTrees(n) } : n \in 0..NX }

Init == c \in LGCases \cup XCases /\ PrintT("GEN " \o ToJson(c))
Next == UNCHANGED c

\* all of them are trees, and the two ways to walk them agree on which leaves there are
Nd(i) == [f |-> i - 1, k |-> "n", t |-> 0, set |-> <<>>, miss |-> 0, dl |-> FALSE, l |-> c.t.l[i], r |-> c.t.r[i], v |-> 0]
WellFormed ==
  IF c.fmt = "lg"
  THEN LGTreeOK([n |-> [i \in 1..c.n |-> Nd(i)], v |-> [i \in 1..(c.n + 1) |-> 0]], c.n)
  ELSE LET t == [n |-> [i \in 1..(2 * c.n + 1) |-> Nd(i)]]
       IN /\ Below(t, 0) = 0..(2 * c.n)
          /\ CountLeaves(t, 0) = c.n + 1
=============================================================================
