------------------------------- MODULE Damage -------------------------------
(* Damaged model files (C21): what a loader must not let through.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == { s[i] : i \in 1..Len(s) }

(* ---- references of a tree. l and r give the children of node i at i+1.      *)
(* LightGBM: n splits, a child c >= 0 is a split, c < 0 is leaf -c-1 of n+1.   *)
(* XGBoost, sklearn: n nodes, leaves among them; a leaf has left child -1.     *)
LeafNode(fmt, l, i) == IF fmt = "lgtext" THEN FALSE ELSE IF fmt = "xgbin" THEN l[i + 1] = -1 ELSE l[i + 1] < 0
Fits(fmt, n, c) == IF fmt = "lgtext" THEN c < n /\ c >= -(n + 1) ELSE c >= 0 /\ c < n
Kids(fmt, l, r, i) == IF LeafNode(fmt, l, i) THEN {} ELSE { c \in {l[i + 1], r[i + 1]} : c >= 0 /\ c < Len(l) }

RECURSIVE Closure(_, _, _, _)
Closure(fmt, l, r, S) ==
  LET X == S \cup UNION { Kids(fmt, l, r, i) : i \in S }
  IN IF X = S THEN S ELSE Closure(fmt, l, r, X)
Reach(fmt, l, r) == Closure(fmt, l, r, {0})
Cyclic(fmt, l, r) == \E i \in Reach(fmt, l, r) : i \in Closure(fmt, l, r, Kids(fmt, l, r, i))
Dangling(fmt, l, r) ==
  \E i \in (IF fmt = "lgtext" THEN 0..Len(l) - 1 ELSE Reach(fmt, l, r)) :
     ~LeafNode(fmt, l, i) /\ ~(Fits(fmt, Len(l), l[i + 1]) /\ Fits(fmt, Len(l), r[i + 1]))
\* every reachable thing hangs in one place
Slots(fmt, l, r) == { <<s, i>> : s \in {"l", "r"}, i \in { i \in Reach(fmt, l, r) : ~LeafNode(fmt, l, i) } }
At(l, r, x) == IF x[1] = "l" THEN l[x[2] + 1] ELSE r[x[2] + 1]
Shared(fmt, l, r) == \/ \E x, y \in Slots(fmt, l, r) : x # y /\ At(l, r, x) = At(l, r, y)
                     \/ \E x \in Slots(fmt, l, r) : At(l, r, x) = 0
Sound(fmt, l, r) ==
  /\ ~Dangling(fmt, l, r) /\ ~Cyclic(fmt, l, r) /\ ~Shared(fmt, l, r)
  /\ (fmt # "xgbin" => Reach(fmt, l, r) = 0..Len(l) - 1)
  /\ (fmt # "lgtext" => \A i \in Reach(fmt, l, r) : LeafNode(fmt, l, i) => l[i + 1] = -1 /\ r[i + 1] = -1)
Refs(fmt, l, r) == IF Dangling(fmt, l, r) \/ Cyclic(fmt, l, r) THEN "refuse"
                   ELSE IF Sound(fmt, l, r) THEN "load" ELSE "free"

(* ---- other structural defects: <<field, how>> of a file that has just this  *)
X(fs, hs) == fs \X hs
Vast == {"p31", "p31m1", "p62", "p63m1", "p63", "vast"}
Beyond == {"nf", "next", "neg", "much"}      \* features: the number of features is the first that is not there
VastU == {"p31", "p32", "p40", "p62", "p63m1", "p63", "p64m1"}
Refused(fmt) ==
  CASE fmt = "lgtext" ->
         X({"left_child", "right_child", "decision_type", "split_feature", "threshold", "leaf_value"}, {"shorter", "longer", "empty", "double", "one"})
         \cup X({"split_feature"}, Beyond) \cup X({"threshold"}, {"cat", "catn", "catnan"})
         \cup X({"num_leaves"}, {"shorter", "longer", "neg", "zero", "min"} \cup Vast)
         \cup X({"cat_boundaries"}, {"shorter", "empty", "one", "order", "long", "wrap"})
         \cup X({"cat_threshold"}, {"shorter", "empty", "one"})
         \cup X({"max_feature_idx"}, {"less", "min"} \cup Vast)
         \cup X({"num_class"}, {"neg", "zero", "min"} \cup Vast)
    [] fmt = "lgjson" ->
         X({"num_leaves"}, {"shorter", "longer", "neg", "zero", "min"} \cup Vast)
         \cup X({"split_feature"}, Beyond) \cup X({"category"}, {"p31", "p40", "p62", "p63m1", "p63", "vast"})
         \cup X({"child"}, {"absent", "null", "empty", "number", "list"}) \cup X({"tree_structure"}, {"absent"})
         \cup X({"max_feature_idx"}, {"less", "min"} \cup Vast)
         \cup X({"num_class"}, {"neg", "zero", "min"} \cup Vast)
    [] fmt \in {"xgbin", "dart"} ->
         X({"objective", "name", "leaf_vector"}, VastU) \cup X({"features"}, {"zero"})
         \cup X({"all features"}, {"neg", "min"})         \* of the header, the model and each tree alike
         \cup X({"num_trees"}, {"neg", "zero", "min", "p31m1", "p30", "p20", "longer"})
         \cup X({"groups"}, {"neg", "zero", "min", "p31m1", "p30", "p20", "longer"})
         \cup X({"num_nodes"}, {"neg", "zero", "min", "p31m1", "p30", "p20", "shorter"}) \cup X({"feature"}, Beyond)
         \cup (IF fmt = "dart" THEN X({"weights"}, {"shorter", "longer", "cut", "zero", "p62p1"} \cup VastU) ELSE {})
    [] fmt = "linbin" ->
         X({"objective", "name"}, VastU) \cup X({"features"}, {"zero"})
         \cup X({"groups"}, {"neg", "zero", "min", "p31m1", "p30", "p20", "longer"})
         \cup X({"lin_features"}, {"neg", "zero", "min", "p31m1", "p30", "p20", "longer", "shorter"})
         \cup X({"weights"}, {"shorter", "longer", "cut", "zero", "p62p1"} \cup VastU)
    [] fmt = "skpkl" ->
         X({"n_features_"}, {"less", "neg", "min", "p31", "p40", "p62", "p63m1"}) \cup X({"feature"}, Beyond)
         \cup X({"n_estimators", "n_estimators and shape"}, {"longer", "shorter", "neg", "zero", "min", "p31", "p40", "p62", "p63m1"})
         \cup X({"overflow"}, {"none", "some"}) \cup X({"classes"}, {"longer", "shorter", "neg", "zero", "min", "p31", "p40", "p62"})
         \cup X({"items"}, {"longer", "shorter", "zero"})
         \cup X({"node_count"}, {"longer", "shorter", "zero", "neg", "p31m1", "p40", "p62"})
         \cup X({"nodes", "values"}, {"longer", "shorter", "zero", "ragged"})
\* these may be refused or not, but must not crash
Unclear(fmt) ==
  CASE fmt = "lgtext" -> X({"cat_threshold"}, {"longer", "double"}) \cup X({"constant"}, {"neg", "zero", "min"})
    [] fmt = "lgjson" -> X({"category"}, {"neg", "empty", "zero"}) \cup X({"constant"}, {"neg", "zero", "min"})
    [] fmt \in {"xgbin", "dart"} -> X({"features"}, {"neg", "p31m1", "min", "p20", "longer", "shorter"}) \cup X({"num_trees"}, {"shorter"}) \cup X({"num_nodes"}, {"longer"})
    [] fmt = "linbin" -> X({"features"}, {"neg", "p31m1", "min", "p20", "longer", "shorter"})
    [] fmt = "skpkl" -> X({"constant"}, {"neg", "zero", "min"})
=============================================================================
