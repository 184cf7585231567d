------------------------------ MODULE Convert -------------------------------
(* How the loaders make the library's trees of a file's (implementation level):*)
(* LightGBM text, XGBoost and scikit-learn walk the file's nodes with two      *)
(* stacks, right children first, so that a right child that is a node always   *)
(* follows its parent; LightGBM JSON does the same with one stack and then     *)
(* puts the leaf numbers back. The result is checked (Valid) before it is used;*)
(* prediction goes to node i + 1 on the right. Checked against Models' walk:   *)
(* - every tree, in every numbering, is accepted, and every row reaches the    *)
(*   leaf that it reaches in the file's tree, under its number;                *)
(* - references that are out of range or cyclic (Damage) are refused, whatever *)
(*   is accepted can be walked, and the conversion always ends.                *)
EXTENDS TreeShapes
D == INSTANCE Damage

CONSTANTS ShapeLG, ShapeX,     \* splits of well-formed trees
          RefLG, RefX, XNeg    \* splits (LightGBM), nodes (others) of trees with arbitrary references

VARIABLES fmt, l, r,      \* the file's tree: format, children
          nodes,          \* converted: [o (original), lf, rf (leaf?), left, right]
          leaves,         \* originals of the leaf numbers (formats that number leaves by meeting them)
          ostack, cstack, visited,
          pc              \* "run" "check" "ok" "refused"
vars == <<fmt, l, r, nodes, leaves, ostack, cstack, visited, pc>>

N == Len(l)
IsLeaf(c) == l[c + 1] = -1              \* formats whose leaves are nodes (XGBoost)
SkLeaf(c) == l[c + 1] < 0
LeafN(c) == IF fmt = "skpkl" THEN SkLeaf(c) ELSE IsLeaf(c)
Text == fmt = "lgtext"
Json == fmt = "lgjson"

Source(f, x, y) == fmt = f /\ l = x /\ r = y
Sources ==
  \/ \E n \in 0..ShapeLG : \E t \in LGTrees(n), f \in {"lgtext", "lgjson"} : Source(f, t.l, t.r)
  \/ \E n \in 0..ShapeX : \E t \in XTrees(n), f \in {"xgbin", "skpkl"} : Source(f, t.l, t.r)
  \/ RefLG # 0 /\ \E x, y \in [1..RefLG -> -(RefLG + 2)..RefLG] : Source("lgtext", x, y)
  \/ RefX # 0 /\ \E x, y \in [1..RefX -> -XNeg..RefX], f \in {"xgbin", "skpkl"} : Source(f, x, y)

Init == /\ Sources
        /\ nodes = <<>> /\ leaves = <<>> /\ ostack = <<>> /\ cstack = <<>> /\ visited = {}
        /\ pc = "start"

Last(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)

\* a converted node for original o; lvs: the leaves so far. <<>> when it cannot be made
Create(o, lvs) ==
  LET a == l[o + 1] b == r[o + 1] IN
  CASE Text -> <<[o |-> o, lf |-> a < 0, rf |-> b < 0, left |-> IF a < 0 THEN -a - 1 ELSE 0, right |-> IF b < 0 THEN -b - 1 ELSE 0], lvs>>
    [] Json -> LET l2 == IF a < 0 THEN Append(lvs, a) ELSE lvs
                   l3 == IF b < 0 THEN Append(l2, b) ELSE l2
               IN <<[o |-> o, lf |-> a < 0, rf |-> b < 0, left |-> IF a < 0 THEN Len(lvs) ELSE 0, right |-> IF b < 0 THEN Len(l2) ELSE 0], l3>>
    [] OTHER -> IF a < 0 \/ b < 0 \/ a >= N \/ b >= N THEN <<>>
                ELSE LET l2 == IF LeafN(a) THEN Append(lvs, a) ELSE lvs
                         l3 == IF LeafN(b) THEN Append(l2, b) ELSE l2
                     IN <<[o |-> o, lf |-> LeafN(a), rf |-> LeafN(b), left |-> IF LeafN(a) THEN Len(lvs) ELSE 0,
                           right |-> IF LeafN(b) THEN Len(l2) ELSE 0], l3>>

\* checks before the walk
Splits == Cardinality({ i \in 0..(N - 1) : ~SkLeaf(i) })
Start ==
  /\ pc = "start"
  /\ LET bad == CASE Text -> \E i \in 1..N : l[i] >= N \/ r[i] >= N
                  [] fmt = "skpkl" -> N = 0 \/ N - Splits - 1 # Splits
                  [] OTHER -> FALSE
         const == CASE Text \/ Json -> N = 0 [] fmt = "xgbin" -> IsLeaf(0) [] OTHER -> Splits = 0
         x == Create(0, <<>>)
     IN IF bad THEN pc' = "refused" /\ UNCHANGED <<nodes, leaves, ostack, cstack>>
        ELSE IF const THEN pc' = "check" /\ leaves' = <<IF Text \/ Json THEN -1 ELSE 0>> /\ UNCHANGED <<nodes, ostack, cstack>>
        ELSE IF Json THEN pc' = "run" /\ ostack' = <<[p |-> 0, side |-> "", o |-> 0]>> /\ UNCHANGED <<nodes, leaves, cstack>>
        ELSE IF x = <<>> THEN pc' = "refused" /\ UNCHANGED <<nodes, leaves, ostack, cstack>>
        ELSE pc' = "run" /\ nodes' = <<x[1]>> /\ leaves' = x[2] /\ ostack' = <<0>> /\ cstack' = <<1>>
  /\ UNCHANGED <<fmt, l, r, visited>>

\* the two-stack walk: go right if one can, else left, else back
Into(side, o) ==
  LET x == Create(o, leaves)
      c == Last(cstack)
      new == Len(nodes)                     \* numbers of nodes are from 0
  IN IF x = <<>> THEN pc' = "refused" /\ UNCHANGED <<nodes, leaves, ostack, cstack, visited>>
     ELSE /\ nodes' = Append(IF side = "right" THEN [nodes EXCEPT ![c].right = new] ELSE [nodes EXCEPT ![c].left = new], x[1])
          /\ leaves' = x[2] /\ ostack' = Append(ostack, o) /\ cstack' = Append(cstack, new + 1)
          /\ visited' = visited \cup {o} /\ UNCHANGED pc
Walk ==
  /\ pc = "run" /\ ~Json /\ Len(ostack) > 0
  /\ LET nd == nodes[Last(cstack)] o == Last(ostack)
     IN IF ~nd.rf /\ r[o + 1] \notin visited THEN Into("right", r[o + 1])
        ELSE IF ~nd.lf /\ l[o + 1] \notin visited THEN Into("left", l[o + 1])
        ELSE ostack' = Pop(ostack) /\ cstack' = Pop(cstack) /\ UNCHANGED <<nodes, leaves, visited, pc>>
  /\ UNCHANGED <<fmt, l, r>>
\* the one-stack walk of JSON: the node on top, its left child, its right child on top of that
WalkJson ==
  /\ pc = "run" /\ Json /\ Len(ostack) > 0
  /\ LET s == Last(ostack)
         x == Create(s.o, leaves)
         new == Len(nodes)
         linked == CASE s.side = "left" -> [nodes EXCEPT ![s.p].left = new]
                     [] s.side = "right" -> [nodes EXCEPT ![s.p].right = new]
                     [] OTHER -> nodes
         kid(c, side) == IF c >= 0 THEN <<[p |-> new + 1, side |-> side, o |-> c]>> ELSE <<>>
     IN /\ nodes' = Append(linked, x[1]) /\ leaves' = x[2]
        /\ ostack' = Pop(ostack) \o kid(l[s.o + 1], "left") \o kid(r[s.o + 1], "right")
  /\ UNCHANGED <<fmt, l, r, cstack, visited, pc>>
Renumbered ==    \* JSON: leaf i gets its number of the file back
  [i \in 1..Len(nodes) |-> [nodes[i] EXCEPT !.left = IF nodes[i].lf THEN -leaves[@ + 1] - 1 ELSE @,
                                             !.right = IF nodes[i].rf THEN -leaves[@ + 1] - 1 ELSE @]]
Finish ==
  /\ pc = "run" /\ Len(ostack) = 0
  /\ pc' = "check" /\ nodes' = (IF Json THEN Renumbered ELSE nodes)
  /\ UNCHANGED <<fmt, l, r, leaves, ostack, cstack, visited>>

NLeaves == IF Text THEN N + 1 ELSE Len(leaves)
Valid == /\ NLeaves = Len(nodes) + 1
         /\ \A i \in 1..Len(nodes) :
              /\ IF nodes[i].lf THEN nodes[i].left < NLeaves ELSE nodes[i].left > i - 1 /\ nodes[i].left < Len(nodes)
              /\ IF nodes[i].rf THEN nodes[i].right < NLeaves ELSE nodes[i].right = i /\ nodes[i].right < Len(nodes)
Check == /\ pc = "check"
         /\ pc' = (IF Valid THEN "ok" ELSE "refused")
         /\ UNCHANGED <<fmt, l, r, nodes, leaves, ostack, cstack, visited>>
Over == pc \in {"ok", "refused"} /\ UNCHANGED vars
Next == Start \/ Walk \/ WalkJson \/ Finish \/ Check \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(pc \in {"ok", "refused"})

\* ------------------------------------------------------- what it is good for
\* a row is the set of splits (of the file) that it goes left at
\* walking the converted tree: the leaf's number, -1: lost
RECURSIVE Conv(_, _, _)
Conv(i, row, fuel) ==
  IF fuel = 0 \/ i >= Len(nodes) THEN -1
  ELSE LET nd == nodes[i + 1] IN
       IF nd.o \in row THEN IF nd.lf THEN nd.left ELSE Conv(nd.left, row, fuel - 1)
       ELSE IF nd.rf THEN nd.right ELSE Conv(i + 1, row, fuel - 1)
ConvLeaf(row) == IF Len(nodes) = 0 THEN 0 ELSE Conv(0, row, Len(nodes) + 1)
\* walking the file's tree: the reference of the leaf
RECURSIVE File(_, _)
File(c, row) ==
  IF c < 0 THEN c
  ELSE IF fmt \in {"xgbin", "skpkl"} /\ LeafN(c) THEN c
  ELSE File(IF c \in row THEN l[c + 1] ELSE r[c + 1], row)
FileLeaf(row) == IF N = 0 THEN -1 ELSE File(0, row)

Rows == SUBSET { i \in 0..(N - 1) : fmt \in {"lgtext", "lgjson"} \/ ~LeafN(i) }
Verdict == IF fmt = "lgjson" THEN "load" ELSE IF N = 0 THEN "load" ELSE D!Refs(fmt, l, r)

Safe == pc = "ok" => \A row \in Rows : ConvLeaf(row) \in 0..(NLeaves - 1)
Refuses == (pc = "ok" => Verdict # "refuse") /\ (pc = "refused" => Verdict # "load")
\* a leaf is reached under the file's number (LightGBM), or under a number that stands for it
SameLeaf == pc = "ok" =>
  \A row \in Rows : IF Text \/ Json THEN ConvLeaf(row) = -FileLeaf(row) - 1
                    ELSE leaves[ConvLeaf(row) + 1] = FileLeaf(row)
\* different leaves have different numbers
Injective == pc = "ok" /\ ~Text /\ Verdict = "load" => \A i, j \in 1..Len(leaves) : i # j => leaves[i] # leaves[j]
RightNext == pc = "ok" => \A i \in 1..Len(nodes) : ~nodes[i].rf => nodes[i].right = i
=============================================================================
