----------------------------- MODULE TreeShapes -----------------------------
(* Tree shapes and their numberings, as references of a file. LightGBM:        *)
(* children c >= 0 are splits, c < 0 leaves -c-1. XGBoost, scikit-learn:       *)
(* leaves are nodes (left child -1).                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* shapes: <<>> is a leaf, <<a, b>> a split
RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {<<>>}
             ELSE UNION { { <<a, b>> : a \in Shapes(i), b \in Shapes(n - 1 - i) } : i \in 0..(n - 1) }
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE 1 + Size(s[1]) + Size(s[2])

\* children of a shape's splits, splits and leaves numbered in preorder from node, leaf
RECURSIVE Flat(_, _, _)
Flat(s, node, leaf) ==
  IF s = <<>> THEN <<>>
  ELSE LET a == Size(s[1])
           left == IF a = 0 THEN -leaf - 1 ELSE node + 1
           right == IF Size(s[2]) = 0 THEN -(leaf + a + 1) - 1 ELSE node + 1 + a
       IN <<<<left, right>>>> \o Flat(s[1], node + 1, leaf) \o Flat(s[2], node + 1 + a, leaf + a + 1)

Perms(n) == Permutations(1..n)     \* functions
\* renumber: split i becomes p[i] (root stays), leaf j becomes q[j]
LGTree(s, p, q) ==
  LET n == Size(s)
      f == Flat(s, 0, 0)
      N(i) == IF i = 0 THEN 0 ELSE p[i]
      R(x) == IF x >= 0 THEN N(x) ELSE -(q[-x] - 1) - 1
      old == [i \in 1..n |-> CHOOSE j \in 0..(n - 1) : N(j) = i - 1]
  IN [l |-> [i \in 1..n |-> R(f[old[i] + 1][1])], r |-> [i \in 1..n |-> R(f[old[i] + 1][2])]]
\* leaf j is node n + j before the renumbering p of all nodes but the root
XTree(s, p) ==
  LET n == Size(s)
      f == Flat(s, 0, 0)
      N(i) == IF i = 0 THEN 0 ELSE p[i]
      R(x) == N(IF x >= 0 THEN x ELSE n - x - 1)
      old == [i \in 1..(2 * n + 1) |-> CHOOSE j \in 0..(2 * n) : N(j) = i - 1]
      K(i, side) == IF old[i] >= n THEN -1 ELSE R(f[old[i] + 1][side])
  IN [l |-> [i \in 1..(2 * n + 1) |-> K(i, 1)], r |-> [i \in 1..(2 * n + 1) |-> K(i, 2)]]

Catalan(n) == <<1, 1, 2, 5, 14>>[n + 1]
ASSUME \A n \in 0..4 : Cardinality(Shapes(n)) = Catalan(n)

LGTrees(n) == { LGTree(s, p, q) : s \in Shapes(n), p \in Perms(IF n = 0 THEN 0 ELSE n - 1), q \in Perms(n + 1) }
XTrees(n) == { XTree(s, p) : s \in Shapes(n), p \in Perms(2 * n) }
=============================================================================
