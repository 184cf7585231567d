------------------------------- MODULE Models -------------------------------
(* What a source model means: LightGBM, XGBoost (gbtree, dart, gblinear) and   *)
(* scikit-learn gradient boosting. This is the reference the implementation is *)
(* measured against. A model is a record                                        *)
(*   kind   "lg" "xg" "dart" "lin" "sk"                                         *)
(*   nf     number of features         k    raw outputs per row                 *)
(*   avg    LightGBM random forest     base base score / initial estimates      *)
(*   lr     sklearn learning rate      w    dart weights (quarters)             *)
(*   trees  iteration-major            lw, lb  gblinear weights and bias        *)
(*   sc     scores are given times sc  tof, tn  truncation of (line), to        *)
(* Leaf values, bases and linear weights are in eighths.                        *)
EXTENDS Values, Sequences, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RangeOf(s) == { s[i] : i \in 1..Len(s) }

\* ------------------------------------------------------------------ splits
\* LightGBM numerical split: missing types 0 None, 1 Zero, 2 NaN
LGMissing(nd, v) == \/ nd.miss = 1 /\ (IsNaN(v) \/ ZeroLike(v))
                    \/ nd.miss = 2 /\ IsNaN(v)
LGNumericLeft(nd, v) ==
  IF LGMissing(nd, v) THEN nd.dl
  ELSE (IF IsNaN(v) THEN 0 ELSE v) <= nd.t

\* LightGBM categorical split: integer part in the set; NaN goes right
LGCatLeft(nd, v) == /\ ~IsNaN(v)
                    /\ Trunc(v) \in RangeOf(nd.set)

XGLeft(nd, v) == IF IsNaN(v) THEN nd.dl ELSE v < nd.t
SKLeft(nd, v) == v <= nd.t

GoLeft(kind, nd, v) ==
  CASE kind = "lg" -> IF nd.k = "c" THEN LGCatLeft(nd, v) ELSE LGNumericLeft(nd, v)
    [] kind = "sk" -> SKLeft(nd, v)
    [] OTHER -> XGLeft(nd, v)

\* ------------------------------------------------------------------- trees
\* LightGBM: a reference c >= 0 is node c, c < 0 is leaf -c-1
RECURSIVE LGWalk(_, _, _)
LGWalk(t, c, row) ==
  IF c < 0 THEN -c - 1
  ELSE LET nd == t.n[c + 1]
       IN LGWalk(t, IF GoLeft("lg", nd, row[nd.f + 1]) THEN nd.l ELSE nd.r, row)

\* XGBoost, sklearn: leaves are nodes
RECURSIVE NodeWalk(_, _, _, _)
NodeWalk(kind, t, c, row) ==
  LET nd == t.n[c + 1]
  IN IF nd.l = -1 THEN c
     ELSE NodeWalk(kind, t, IF GoLeft(kind, nd, row[nd.f + 1]) THEN nd.l ELSE nd.r, row)

\* the leaf a row reaches: leaf number (LightGBM), node number (others)
Reach(m, t, row) ==
  IF m.kind = "lg" THEN IF Len(t.n) = 0 THEN 0 ELSE LGWalk(t, 0, row)
  ELSE NodeWalk(m.kind, t, 0, row)

LeafVal(m, t, leaf) == IF m.kind = "lg" THEN t.v[leaf + 1] ELSE t.n[leaf + 1].v

\* nodes of the tree that the root reaches
RECURSIVE Below(_, _)
Below(t, c) == LET nd == t.n[c + 1]
               IN IF nd.l = -1 THEN {c} ELSE {c} \cup Below(t, nd.l) \cup Below(t, nd.r)

\* the leaves of a tree: their numbers (LightGBM) or nodes
Leaves(m, t) == IF m.kind = "lg" THEN 0..(Len(t.v) - 1)
                ELSE { c \in Below(t, 0) : t.n[c + 1].l = -1 }

\* how many leaves hang below a node
RECURSIVE CountLeaves(_, _)
CountLeaves(t, c) == LET nd == t.n[c + 1]
                     IN IF nd.l = -1 THEN 1 ELSE CountLeaves(t, nd.l) + CountLeaves(t, nd.r)

\* ------------------------------------------------------------------ models
HasTrees(m) == m.kind # "lin"
NE(m) == IF m.kind = "lin" THEN 1 ELSE Len(m.trees) \div m.k
TreeAt(m, i, c) == m.trees[i * m.k + c + 1]        \* iteration i, class c (from 0)

\* the number of estimators really used
Eff(m, n) == IF m.kind = "lin" THEN 1
             ELSE IF n <= 0 \/ n > NE(m) THEN NE(m) ELSE n

RECURSIVE SumOver(_, _)
SumOver(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumOver(f, n - 1)

\* scores that are no numbers (how the harness writes them)
NoNumber == 2000000001  IsPInf == 2000000002  IsNInf == 2000000003
\* +-infinity times a number
SgnMul(c, w) == IF w = 0 THEN 0 ELSE IF (c > 0) = (w > 0) THEN 1 ELSE -1

\* raw score of class c (from 0) for n iterations, times m.sc. scikit-learn and
\* gblinear: the value times the learning rate (feature) has 32nds.
Raw(m, row, n, c) ==
  CASE m.kind = "lin" ->
         IF \E f \in 1..m.nf : IsInf(row[f])
         THEN LET s == { SgnMul(row[f], m.lw[f][c + 1]) : f \in { f \in 1..m.nf : IsInf(row[f]) } }
              IN IF s = {1} THEN IsPInf ELSE IF s = {-1} THEN IsNInf ELSE NoNumber
         ELSE 4 * (m.base[1] + m.lb[c + 1])
              + SumOver([f \in 1..m.nf |-> IF IsNaN(row[f]) THEN 0 ELSE m.lw[f][c + 1] * Quarters(row[f])], m.nf)
    [] OTHER ->
       LET val == [i \in 1..n |-> LET t == TreeAt(m, i - 1, c) IN LeafVal(m, t, Reach(m, t, row))]
       IN CASE m.kind = "lg" -> IF m.avg THEN (SumOver(val, n) * 840) \div n ELSE SumOver(val, n)
            [] m.kind = "xg" -> m.base[1] + SumOver(val, n)
            [] m.kind = "dart" -> 4 * m.base[1] + SumOver([i \in 1..n |-> val[i] * m.w[(i - 1) * m.k + c + 1]], n)
            [] m.kind = "sk" -> 4 * m.base[c + 1] + SumOver([i \in 1..n |-> val[i] * m.lr], n)

RawRow(m, row, n) == [c \in 1..m.k |-> Raw(m, row, n, c - 1)]

\* leaf numbers (LightGBM) or leaf nodes, class-major
ReachRow(m, row) == [x \in 1..(m.k * NE(m)) |->
                       LET c == (x - 1) \div NE(m) i == (x - 1) % NE(m)
                       IN Reach(m, TreeAt(m, i, c), row)]

LeafCounts(m) == IF m.kind = "lin" THEN <<>>
                 ELSE [x \in 1..(m.k * NE(m)) |->
                         LET c == (x - 1) \div NE(m) i == (x - 1) % NE(m)
                         IN IF m.kind = "lg" THEN Len(TreeAt(m, i, c).v) ELSE CountLeaves(TreeAt(m, i, c), 0)]

Truncated(m, n) == [m EXCEPT !.trees = SubSeq(m.trees, 1, n * m.k),
                             !.w = IF Len(m.w) = 0 THEN m.w ELSE SubSeq(m.w, 1, n * m.k)]

\* what an absent cell of a sparse row holds
Absent(m) == IF m.kind \in {"xg", "dart"} THEN NaN ELSE 0

\* dense row: the model looks at its own features only
DenseRow(m, row) == SubSeq(row, 1, m.nf)
\* sparse row: entries <<column, value>>, columns from 0; the last entry of a column counts
\* (models of very many features: only those that splits ask for)
Asked(m) == UNION { { m.trees[i].n[j].f + 1 : j \in 1..Len(m.trees[i].n) } : i \in 1..Len(m.trees) }
SparseRow(m, es) ==
  [f \in IF m.nf > 10000 THEN Asked(m) ELSE 1..m.nf |->
     LET here == { j \in 1..Len(es) : es[j][1] = f - 1 }
     IN IF here = {} THEN Absent(m) ELSE es[CHOOSE j \in here : \A k \in here : k <= j][2]]

\* ---------------------------------------------------------- well-formedness
\* A LightGBM tree: node 0 is the root, every node and every leaf has exactly one parent, no cycles
LGTreeOK(t, nf) ==
  /\ Len(t.v) = Len(t.n) + 1
  /\ LET kids == [i \in 1..Len(t.n) |-> {t.n[i].l, t.n[i].r}]
         all == 0..(Len(t.n) - 1)
     IN /\ \A i \in 1..Len(t.n) : /\ t.n[i].l # t.n[i].r
                                  /\ \A c \in kids[i] : c < Len(t.n) /\ c # 0 /\ -c - 1 < Len(t.v)
        /\ \A i, j \in 1..Len(t.n) : i # j => kids[i] \cap kids[j] = {}
        /\ \A i \in 1..Len(t.n) : t.n[i].f \in 0..(nf - 1)
        \* every node is reached (a cycle would keep its nodes from being so)
        /\ LET RECURSIVE Grow(_)
               Grow(s) == LET s2 == s \cup { c \in UNION { kids[i + 1] : i \in s } : c >= 0 }
                          IN IF s2 = s THEN s ELSE Grow(s2)
           IN Len(t.n) = 0 \/ Grow({0}) = all
=============================================================================
